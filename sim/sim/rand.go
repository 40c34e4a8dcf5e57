package sim

import (
	"math/rand"
	randv2 "math/rand/v2"
	"unsafe"
)

// randState is the stream of top level random numbers of one goroutine.
type randState struct {
	RNG
	base uint64
	rnd  *rand.Rand
	rnd2 *randv2.Rand
}

func (s *randState) Uint64() uint64 {
	if R != nil {
		R.draws++
	}
	return s.Next()
}
func (s *randState) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *randState) Seed(seed int64) { s.S = Mix(uint64(seed), 77) }

var outside = newRandState(99, 0)

func newRandState(seed, base uint64) *randState {
	s := &randState{RNG: RNG{seed}, base: base}
	s.rnd = rand.New(s)
	s.rnd2 = randv2.New(s)
	return s
}

// cur is the stream of the running goroutine: its random numbers do not depend on the schedule.
func curRand() *randState {
	r := R
	if r == nil || r.cur == nil {
		return outside
	}
	g := r.cur
	if g.rnd == nil || g.rnd.base != r.randBase {
		g.rnd = newRandState(Mix(r.randBase, g.key), r.randBase)
	}
	return g.rnd
}

func biased() bool { return R != nil && R.O.RandMode == 1 }

func RandSeed(seed int64) {
	if R != nil {
		R.randBase = Mix(Mix(uint64(seed), 21), R.O.RandSalt)
	}
}

// Source is the seeded source behind rand.NewSource.
type Source struct {
	RNG
}

func (s *Source) Seed(seed int64) { s.S = Mix(uint64(seed), 31) }
func (s *Source) Uint64() uint64 {
	raceWrite(unsafe.Pointer(s))
	if R != nil {
		R.draws++
	}
	return s.Next()
}
func (s *Source) Int63() int64 { return int64(s.Uint64() >> 1) }

func RandNewSource(seed int64) rand.Source {
	s := &Source{}
	s.Seed(seed)
	return s
}

func RandIntn(n int) int {
	s := curRand()
	if n > 1 && biased() {
		switch s.Next() % 4 {
		case 0:
			return 0
		case 1:
			return n - 1
		}
	}
	return s.rnd.Intn(n)
}
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }
func RandFloat64() float64 {
	s := curRand()
	if biased() {
		switch s.Next() % 4 {
		case 0:
			return 0
		case 1:
			return 1 - 1.0/(1<<53)
		}
	}
	return s.rnd.Float64()
}
func RandFloat32() float32     { return curRand().rnd.Float32() }
func RandInt() int             { return curRand().rnd.Int() }
func RandInt31() int32         { return curRand().rnd.Int31() }
func RandInt63() int64         { return curRand().rnd.Int63() }
func RandUint32() uint32       { return curRand().rnd.Uint32() }
func RandUint64() uint64       { return curRand().rnd.Uint64() }
func RandPerm(n int) []int     { return curRand().rnd.Perm(n) }
func RandNormFloat64() float64 { return curRand().rnd.NormFloat64() }
func RandExpFloat64() float64  { return curRand().rnd.ExpFloat64() }
func RandShuffle(n int, swap func(i, j int)) {
	curRand().rnd.Shuffle(n, swap)
}
func RandRead(p []byte) (int, error) {
	s := curRand()
	for i := range p {
		p[i] = byte(s.Next())
	}
	return len(p), nil
}

func Rand2IntN(n int) int                     { return RandIntn(n) }
func Rand2Int64N(n int64) int64               { return curRand().rnd2.Int64N(n) }
func Rand2UintN(n uint) uint                  { return curRand().rnd2.UintN(n) }
func Rand2Int32N(n int32) int32               { return curRand().rnd2.Int32N(n) }
func Rand2Shuffle(n int, swap func(i, j int)) { curRand().rnd2.Shuffle(n, swap) }

// RandMark and RandReset save and restore the stream of the running goroutine.
func RandMark() uint64 { return curRand().S }

func RandReset(v uint64) { curRand().S = v }

// SourceState returns a pointer to the state of a rand.Rand made over RandNewSource (nil otherwise).
func SourceState(r *rand.Rand) *uint64 {
	if r == nil {
		return nil
	}
	src := *(*rand.Source)(unsafe.Pointer(r))
	if s, ok := src.(*Source); ok {
		return &s.S
	}
	return nil
}
