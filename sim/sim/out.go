package sim

import (
	"flag"
	"fmt"
	"io"
	"os"
	"time"
)

func stdWrite(fd int, p []byte) (int, error) {
	r := R
	if r == nil || r.aborted {
		return len(p), nil
	}
	r.syncPoint()
	if r.aborted {
		return len(p), nil
	}
	if fd == 1 {
		r.stdout = append(r.stdout, p...)
	} else {
		r.stderr = append(r.stderr, p...)
	}
	return len(p), nil
}

func FmtPrint(a ...any) (int, error)   { return stdWrite(1, []byte(fmt.Sprint(a...))) }
func FmtPrintln(a ...any) (int, error) { return stdWrite(1, []byte(fmt.Sprintln(a...))) }
func FmtPrintf(f string, a ...any) (int, error) {
	return stdWrite(1, []byte(fmt.Sprintf(f, a...)))
}

func logs(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	stdWrite(2, []byte(s))
}

func LogPrint(a ...any)            { logs(fmt.Sprint(a...)) }
func LogPrintln(a ...any)          { logs(fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...any) { logs(fmt.Sprintf(f, a...)) }
func LogFatal(a ...any) {
	logs(fmt.Sprint(a...))
	Exit(1)
}
func LogFatalln(a ...any) {
	logs(fmt.Sprintln(a...))
	Exit(1)
}
func LogFatalf(f string, a ...any) {
	logs(fmt.Sprintf(f, a...))
	Exit(1)
}
func LogPanic(a ...any) {
	s := fmt.Sprint(a...)
	logs(s)
	panic(s)
}
func LogPanicln(a ...any) {
	s := fmt.Sprintln(a...)
	logs(s)
	panic(s)
}
func LogPanicf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	logs(s)
	panic(s)
}
func LogSetFlags(int)        {}
func LogSetPrefix(string)    {}
func LogSetOutput(io.Writer) {}

type stderrWriter struct{}

func (stderrWriter) Write(p []byte) (int, error) { return stdWrite(2, p) }

// NewCommandLine gives the next program run fresh flags and arguments.
func NewCommandLine(args []string) {
	OsArgs = args
	os.Args = args
	flag.CommandLine = flag.NewFlagSet(args[0], flag.ContinueOnError)
	flag.CommandLine.SetOutput(stderrWriter{})
	flag.Usage = func() {
		fmt.Fprintf(flag.CommandLine.Output(), "Usage of %s:\n", args[0])
		flag.PrintDefaults()
	}
	flag.CommandLine.Usage = func() { flag.Usage() }
}

// FlagParse is flag.Parse.
func FlagParse() {
	err := flag.CommandLine.Parse(OsArgs[1:])
	if err == flag.ErrHelp {
		Exit(0)
	}
	if err != nil {
		Exit(2)
	}
}

// PprofStart and PprofStop stand in for CPU profiling.
func PprofStart(w io.Writer) error { return nil }
func PprofStop()                   {}

// Checkpoint lets code of the harness running inside a run offer a scheduling point.
func Checkpoint() {
	if r := R; r != nil {
		r.syncPoint()
	}
}

// Fire counts an event of the run.
func Fire(s string) {
	if R != nil {
		R.fire(s)
	}
}

func cmdline() *flag.FlagSet {
	if R == nil {
		return flag.NewFlagSet("", flag.ContinueOnError)
	}
	return flag.CommandLine
}

func FlagBool(name string, v bool, usage string) *bool       { return cmdline().Bool(name, v, usage) }
func FlagBoolVar(p *bool, name string, v bool, usage string) { cmdline().BoolVar(p, name, v, usage) }
func FlagInt(name string, v int, usage string) *int          { return cmdline().Int(name, v, usage) }
func FlagIntVar(p *int, name string, v int, usage string)    { cmdline().IntVar(p, name, v, usage) }
func FlagInt64(name string, v int64, usage string) *int64    { return cmdline().Int64(name, v, usage) }
func FlagInt64Var(p *int64, name string, v int64, usage string) {
	cmdline().Int64Var(p, name, v, usage)
}
func FlagUint(name string, v uint, usage string) *uint       { return cmdline().Uint(name, v, usage) }
func FlagUintVar(p *uint, name string, v uint, usage string) { cmdline().UintVar(p, name, v, usage) }
func FlagUint64(name string, v uint64, usage string) *uint64 { return cmdline().Uint64(name, v, usage) }
func FlagUint64Var(p *uint64, name string, v uint64, usage string) {
	cmdline().Uint64Var(p, name, v, usage)
}
func FlagString(name string, v string, usage string) *string { return cmdline().String(name, v, usage) }
func FlagStringVar(p *string, name string, v string, usage string) {
	cmdline().StringVar(p, name, v, usage)
}
func FlagFloat64(name string, v float64, usage string) *float64 {
	return cmdline().Float64(name, v, usage)
}
func FlagFloat64Var(p *float64, name string, v float64, usage string) {
	cmdline().Float64Var(p, name, v, usage)
}
func FlagDuration(name string, v time.Duration, usage string) *time.Duration {
	return cmdline().Duration(name, v, usage)
}
func FlagDurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	cmdline().DurationVar(p, name, v, usage)
}
func FlagVar(v flag.Value, name string, usage string)    { cmdline().Var(v, name, usage) }
func FlagFunc(name, usage string, fn func(string) error) { cmdline().Func(name, usage, fn) }
