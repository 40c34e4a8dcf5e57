//go:build !race

package sim

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
func raceWrite(p unsafe.Pointer)        {}
func raceReadBytes(b []byte)            {}
func raceWriteBytes(b []byte)           {}
