// Package sim is the simulator the instrumented copy of CloudForest runs on.
//
// Exactly one simulated goroutine runs at a time; which one is decided here, from the seed of the run,
// at every instrumented statement, every synchronisation operation and every file operation. Nothing in
// this package is instrumented for the race detector (go:norace) and hand-offs between goroutines are
// made with the detector's synchronisation tracking off, so that the only happens-before edges it sees
// are those of the program's own synchronisation.
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// RNG is splitmix64.
type RNG struct{ S uint64 }

//go:norace
func (r *RNG) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

//go:norace
func (r *RNG) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

//go:norace
func Mix(a, b uint64) uint64 {
	r := RNG{a ^ (b * 0xff51afd7ed558ccd)}
	r.Next()
	return r.Next()
}

//go:norace
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Decision is one recorded scheduling choice: goroutine G, at its own step At, handed over to To.
type Decision struct {
	G  int    `json:"g"`
	At uint64 `json:"at"`
	To int    `json:"to"`
}

// Policy describes how scheduling choices are drawn.
type Policy struct {
	Gap      int     `json:"gap"`    // mean number of statements between preemption draws (0: none)
	SyncP    float64 `json:"sync_p"` // probability of a switch at a synchronisation or I/O operation
	PCT      bool    `json:"pct"`    // priority based: run the highest priority, demote at change points
	PCTSteps int     `json:"pct_steps"`
	PCTDepth int     `json:"pct_depth"`
}

// Options of one run. Seed decides everything that Decisions and Faults do not pin down.
type Options struct {
	Seed      uint64     `json:"seed"`
	RandSeed  uint64     `json:"rand_seed"` // the program's random source, until it seeds it
	RandSalt  uint64     `json:"rand_salt"` // chooses the stream that belongs to each seed
	RandMode  int        `json:"rand_mode"` // 0 uniform, 1 biased to extreme draws
	Policy    Policy     `json:"policy"`
	Replay    bool       `json:"replay"`    // use Decisions instead of Policy
	Decisions []Decision `json:"decisions"` //
	MaxSteps  uint64     `json:"max_steps"`
	Chunk     int        `json:"chunk"` // read chunking: 0 whole, >0 mode
	ChunkSeed uint64     `json:"chunk_seed"`
	MapSeed   uint64     `json:"map_seed"` // map iteration order (0: sorted)
	Clock     int64      `json:"clock"`    // start of wall clock, ns
	ClockJump float64    `json:"clock_jump"`
	Faults    []Fault    `json:"faults"`
	DiskCap   int64      `json:"disk_cap"` // bytes that can still be written (<0: unlimited)
	CrashAt   int        `json:"crash_at"` // crash at the n-th file operation (0: never)
	CrashTorn int        `json:"crash_torn"`
	CrashStep uint64     `json:"crash_step"` // crash at the n-th statement of the run (0: never)
	NumCPU    int        `json:"num_cpu"`
}

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

// G is a simulated goroutine.
type G struct {
	ID    int
	wake  chan struct{}
	steps uint64
	next  uint64
	base  uint64
	state gstate
	wait  unsafe.Pointer
	why   string
	prio  int
	key   uint64
	nkids uint64
	rnd   *randState
	ended bool
	until int64 // sleeping until
	timed bool
	dfree bool
}

// Result of a run.
type Result struct {
	Exit      int  // exit status if the program ended
	Ended     bool // main returned or exit was called
	Crashed   bool
	Deadlock  bool
	StepCap   bool
	Panic     string
	FatalLog  string
	Blocked   string
	Steps     uint64
	Switches  int
	Preempts  int
	Gs        int
	SchedHash uint64
	Hash      uint64
	Stdout    []byte
	Stderr    []byte
	Decisions []Decision
	Races     int
	FS        *FS
	SimTime   int64
	FileOps   int
	Fired     map[string]int
	Draws     uint64
	SyncOps   uint64
	AbortBy   string
}

// Run is the state of one simulated execution.
type Run struct {
	O          Options
	epoch      uint64
	gs         []*G
	cur        *G
	sched      RNG
	chunk      RNG
	mapr       RNG
	clk        RNG
	aborted    bool
	atomic     int
	total      uint64
	lastTotal  uint64
	switches   int
	preempts   int
	shash      uint64
	hash       uint64
	decisions  []Decision
	decIdx     []decEntry
	res        Result
	exitCh     chan *G
	doneCh     chan struct{}
	fs         *FS
	stdout     []byte
	stderr     []byte
	now        int64
	chans      [256]*chanState
	timers     []*simTimer
	timerJumps int
	nchunks    int
	randBase   uint64
	draws      uint64
	syncOps    uint64
	pctLeft    int
	pctNext    uint64
	minPrio    int
	fired      firedList
	raceStart  int
	replayEnd  bool
}

type decEntry struct {
	key  uint64
	used bool
	d    Decision
}

// R is the current run (nil outside of runs).
var R *Run

var epochCounter uint64 = 1

// Probing hooks, called from instrumented code.
var ProbeHook func(name string, args []any) func()

// OnSync, if set, is called (scheduler off) at every file operation, for invariants checked during the run.
var OnFileOp func(op string, f string)

//go:norace
func pt(p any) {}

//go:norace
func decKey(g int, at uint64) uint64 { return uint64(g)<<48 ^ at }

// Y is a possible preemption point; the rewriter puts one before every statement.
//
//go:norace
func Y() {
	r := R
	if r == nil {
		return
	}
	g := r.cur
	g.steps++
	if g.steps < g.next {
		return
	}
	r.slow(g)
}

// V is a preemption point between computing a value and storing it.
//
//go:norace
func V[T any](v T) T {
	Y()
	return v
}

//go:norace
func (r *Run) account(g *G) {
	d := g.steps - g.base
	g.base = g.steps
	r.total += d
	r.now += int64(d) * 50
}

//go:norace
func (r *Run) slow(g *G) {
	r.account(g)
	if r.aborted {
		g.next = g.steps + 4096
		if r.total > r.O.MaxSteps*2+1000000 {
			runtime.Goexit()
		}
		return
	}
	if r.atomic > 0 {
		g.next = g.steps + 4096
		if r.total > r.lastTotal+r.O.MaxSteps {
			r.res.StepCap = true
			r.abort("stepcap")
		}
		return
	}
	if r.total > r.O.MaxSteps {
		r.res.StepCap = true
		r.res.Blocked = r.describe()
		r.abort("stepcap")
	}
	if r.O.CrashStep > 0 && r.total >= r.O.CrashStep {
		r.fire("crash-at-statement")
		r.crash()
	}
	r.fireTimers()
	if r.O.Replay {
		r.replayPoint(g)
		r.setNext(r.cur)
		return
	}
	if r.O.Policy.PCT {
		if r.pctLeft > 0 && r.total >= r.pctNext {
			r.pctLeft--
			r.pctNext = r.total + 1 + uint64(r.sched.Intn(r.O.Policy.PCTSteps+1))
			r.minPrio--
			g.prio = r.minPrio
		}
		t := r.highest()
		if t != nil && t != g {
			r.preempts++
			r.record(g, t)
			r.switchTo(t)
		}
		r.setNext(r.cur)
		return
	}
	t := r.pickOther(g)
	if t != nil {
		r.preempts++
		r.record(g, t)
		r.switchTo(t)
	}
	r.setNext(r.cur)
}

// setNext draws the number of statements until the next scheduling draw.
//
//go:norace
func (r *Run) setNext(g *G) {
	gap := uint64(4096)
	if r.O.Replay {
		gap = r.nextReplay(g)
	} else if r.O.Policy.PCT {
		gap = 64
		if r.pctLeft > 0 {
			if r.pctNext <= r.total {
				gap = 1
			} else if d := r.pctNext - r.total; d < gap {
				gap = d
			}
		}
	} else if r.O.Policy.Gap > 0 {
		gap = 1 + uint64(r.sched.Intn(2*r.O.Policy.Gap))
	}
	if r.O.CrashStep > r.total {
		if d := r.O.CrashStep - r.total; d < gap {
			gap = d
		}
	}
	if gap > 4096 {
		gap = 4096
	}
	if gap < 1 {
		gap = 1
	}
	g.next = g.steps + gap
}

//go:norace
func (r *Run) nextReplay(g *G) uint64 {
	best := uint64(4096)
	for i := range r.decIdx {
		e := &r.decIdx[i]
		if !e.used && e.d.G == g.ID && e.d.At > g.steps {
			if d := e.d.At - g.steps; d < best {
				best = d
			}
		}
	}
	return best
}

//go:norace
func (r *Run) findDecision(g *G) *decEntry {
	for i := range r.decIdx {
		e := &r.decIdx[i]
		if !e.used && e.d.G == g.ID && e.d.At == g.steps {
			return e
		}
	}
	return nil
}

//go:norace
func (r *Run) replayPoint(g *G) {
	e := r.findDecision(g)
	if e == nil {
		return
	}
	e.used = true
	if e.d.To < len(r.gs) {
		t := r.gs[e.d.To]
		if t != g && t.state == gRunnable {
			r.preempts++
			r.record(g, t)
			r.switchTo(t)
		}
	}
}

//go:norace
func (r *Run) record(g, t *G) {
	r.decisions = append(r.decisions, Decision{g.ID, g.steps, t.ID})
	r.shash = Mix(r.shash, uint64(g.ID)<<40^g.steps<<8^uint64(t.ID))
}

//go:norace
func (r *Run) pickOther(g *G) *G {
	n := 0
	for _, x := range r.gs {
		if x != g && x.state == gRunnable {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := r.sched.Intn(n)
	for _, x := range r.gs {
		if x != g && x.state == gRunnable {
			if k == 0 {
				return x
			}
			k--
		}
	}
	return nil
}

//go:norace
func (r *Run) highest() *G {
	var b *G
	for _, x := range r.gs {
		if x.state == gRunnable && (b == nil || x.prio > b.prio) {
			b = x
		}
	}
	return b
}

// syncPoint is a scheduling point at a synchronisation or I/O operation.
//
//go:norace
func (r *Run) syncPoint() {
	if r.aborted || r.atomic > 0 {
		return
	}
	g := r.cur
	g.steps++
	r.syncOps++
	if g.steps >= g.next {
		r.slow(g)
		return
	}
	r.account(g)
	if r.O.Replay {
		r.replayPoint(g)
		r.setNext(r.cur)
		return
	}
	if r.O.Policy.PCT {
		t := r.highest()
		if t != nil && t != g {
			r.record(g, t)
			r.switchTo(t)
			r.setNext(r.cur)
		}
		return
	}
	if r.O.Policy.SyncP > 0 && r.sched.Float() < r.O.Policy.SyncP {
		if t := r.pickOther(g); t != nil {
			r.preempts++
			r.record(g, t)
			r.switchTo(t)
			r.setNext(r.cur)
		}
	}
}

// chooseForced picks the next goroutine when the current one cannot go on.
//
//go:norace
func (r *Run) chooseForced(g *G) *G {
	for {
		n := 0
		for _, x := range r.gs {
			if x.state == gRunnable {
				n++
			}
		}
		if n > 0 {
			var t *G
			switch {
			case r.O.Replay:
				if e := r.findDecision(g); e != nil {
					e.used = true
					if e.d.To < len(r.gs) && r.gs[e.d.To].state == gRunnable {
						t = r.gs[e.d.To]
					}
				}
				if t == nil {
					for _, x := range r.gs {
						if x.state == gRunnable {
							t = x
							break
						}
					}
				}
			case r.O.Policy.PCT:
				t = r.highest()
			default:
				k := r.sched.Intn(n)
				for _, x := range r.gs {
					if x.state == gRunnable {
						if k == 0 {
							t = x
							break
						}
						k--
					}
				}
			}
			if n > 1 {
				r.record(g, t)
			}
			return t
		}
		if !r.advanceClock() {
			return nil
		}
	}
}

//go:norace
func (r *Run) switchTo(t *G) {
	me := r.cur
	if t == me {
		return
	}
	r.account(me)
	r.cur = t
	r.switches++
	r.hash = Mix(r.hash, uint64(t.ID)+0x100)
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if r.aborted {
		runtime.Goexit()
	}
}

// block parks the current goroutine until wakeAll(p).
//
//go:norace
func (r *Run) block(p unsafe.Pointer, why string) {
	g := r.cur
	if r.aborted {
		runtime.Goexit()
	}
	g.state = gBlocked
	g.wait = p
	g.why = why
	t := r.chooseForced(g)
	if t == nil {
		r.res.Deadlock = true
		r.res.Blocked = r.describe()
		r.abort("deadlock")
	}
	if t == g {
		return
	}
	r.switchTo(t)
	r.setNext(r.cur)
}

//go:norace
func (r *Run) wakeAll(p unsafe.Pointer) {
	for _, x := range r.gs {
		if x.state == gBlocked && x.wait == p {
			x.state = gRunnable
			x.wait = nil
		}
	}
}

//go:norace
func (r *Run) wakeG(x *G) {
	if x.state == gBlocked {
		x.state = gRunnable
		x.wait = nil
	}
}

//go:norace
func (r *Run) describe() string {
	s := ""
	for _, x := range r.gs {
		switch x.state {
		case gBlocked:
			s += fmt.Sprintf("goroutine %d blocked in %s; ", x.ID, x.why)
		case gRunnable:
			s += fmt.Sprintf("goroutine %d runnable; ", x.ID)
		}
	}
	return s
}

// abort ends the run from inside a simulated goroutine.
//
//go:norace
func (r *Run) abort(by string) {
	if !r.aborted {
		r.aborted = true
		r.res.AbortBy = by
		r.fs.frozen = true
	}
	runtime.Goexit()
}

//go:norace
func (r *Run) crash() {
	r.res.Crashed = true
	r.abort("crash")
}

// Exit is os.Exit.
//
//go:norace
func Exit(code int) {
	r := R
	if r == nil {
		panic(fmt.Sprintf("program exit(%d) outside a run", code))
	}
	if !r.aborted {
		r.res.Ended = true
		r.res.Exit = code
	}
	r.abort("exit")
}

// Go starts a simulated goroutine.
//
//go:norace
func Go(f func()) {
	r := R
	if r == nil {
		go f()
		return
	}
	if r.aborted {
		return
	}
	if r.atomic > 0 {
		f() // inside an atomic section: run inline
		return
	}
	r.spawn(f)
	r.syncPoint()
}

//go:norace
func (r *Run) spawn(f func()) *G {
	g := &G{ID: len(r.gs), wake: make(chan struct{}, 1)}
	if r.cur != nil {
		r.cur.nkids++
		g.key = Mix(r.cur.key, r.cur.nkids)
	} else {
		g.key = 1
	}
	g.prio = r.sched.Intn(1 << 20)
	r.gs = append(r.gs, g)
	r.setNext(g)
	go runG(r, g, f)
	return g
}

//go:norace
func runG(r *Run, g *G, f func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	normal := false
	defer finishG(r, g, &normal)
	if r.aborted {
		runtime.Goexit()
	}
	f()
	normal = true
}

//go:norace
func finishG(r *Run, g *G, normal *bool) {
	if e := recover(); e != nil {
		if !r.aborted {
			r.aborted = true
			r.fs.frozen = true
			r.res.AbortBy = "panic"
			r.res.Panic = fmt.Sprint(e) + "\n" + trimStack(debug.Stack())
		}
	}
	if !*normal && !r.aborted {
		// runtime.Goexit called by the program itself
		*normal = true
		if g.ID == 0 {
			g.why = "Goexit"
		}
	}
	r.account(g)
	g.state = gDone
	g.ended = true
	raceReleaseMerge(unsafe.Pointer(&r.epoch))
	if g.ID == 0 && *normal && !r.aborted && g.why != "Goexit" {
		r.aborted = true
		r.fs.frozen = true
		r.res.AbortBy = "main"
		r.res.Ended = true
		r.res.Exit = 0
	}
	if !r.aborted {
		t := r.chooseForced(g)
		if t == nil {
			r.aborted = true
			r.fs.frozen = true
			r.res.AbortBy = "deadlock"
			r.res.Deadlock = true
			r.res.Blocked = r.describe()
		} else {
			r.cur = t
			r.switches++
			r.setNext(t)
			raceDisable()
			t.wake <- struct{}{}
			raceEnable()
			return
		}
	}
	raceDisable()
	r.exitCh <- g
	raceEnable()
}

//go:norace
func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Exec runs main under the simulator and returns what happened.
//
//go:norace
func Exec(o Options, fs *FS, main func()) *Result {
	if o.MaxSteps == 0 {
		o.MaxSteps = 50000000
	}
	if o.NumCPU == 0 {
		o.NumCPU = 4
	}
	r := &Run{O: o}
	epochCounter++
	r.epoch = epochCounter
	r.sched.S = Mix(o.Seed, 11)
	r.chunk.S = Mix(o.ChunkSeed, 12)
	r.mapr.S = Mix(o.MapSeed, 13)
	r.clk.S = Mix(uint64(o.Clock), 14)
	r.randBase = Mix(o.RandSeed, 15)
	r.exitCh = make(chan *G, 1)
	r.fs = fs
	r.hash = 1
	r.shash = 1
	if o.Replay {
		for _, d := range o.Decisions {
			r.decIdx = append(r.decIdx, decEntry{decKey(d.G, d.At), false, d})
		}
	}
	if o.Policy.PCT {
		r.pctLeft = o.Policy.PCTDepth
		r.pctNext = uint64(1 + r.sched.Intn(o.Policy.PCTSteps+1))
	}
	r.raceStart = raceErrors()
	fs.begin(r)
	R = r
	g0 := r.spawn(main)
	r.cur = g0
	raceDisable()
	g0.wake <- struct{}{}
	raceEnable()
	// wait for the run to end, then unwind whatever is left
	raceDisable()
	<-r.exitCh
	raceEnable()
	for i := 0; i < len(r.gs); i++ {
		g := r.gs[i]
		if g.ended {
			continue
		}
		r.cur = g
		raceDisable()
		g.wake <- struct{}{}
		<-r.exitCh
		raceEnable()
		i = -1
	}
	raceAcquire(unsafe.Pointer(&r.epoch))
	R = nil
	fs.frozen = false
	res := r.res
	res.Steps = r.total
	res.Switches = r.switches
	res.Preempts = r.preempts
	res.Gs = len(r.gs)
	res.SchedHash = r.shash
	res.Stdout = r.stdout
	res.Stderr = r.stderr
	res.Decisions = r.decisions
	res.FS = fs
	res.SimTime = r.now
	res.FileOps = fs.nops
	res.Draws = r.draws
	res.SyncOps = r.syncOps
	res.Hash = Mix(r.hash, r.draws)
	res.Fired = r.fired.toMap()
	if r.nchunks > 0 {
		res.Fired["short-read"] += r.nchunks
	}
	res.Races = raceErrors() - r.raceStart
	return &res
}

// Atomic runs f in the current goroutine with scheduling, locks and faults off.
//
//go:norace
func Atomic(f func()) {
	r := R
	if r == nil {
		f()
		return
	}
	if r.atomic == 0 {
		r.account(r.cur)
		r.lastTotal = r.total
	}
	r.atomic++
	defer atomicEnd(r)
	f()
}

//go:norace
func atomicEnd(r *Run) {
	r.atomic--
	if r.atomic == 0 && !r.aborted {
		r.account(r.cur)
		r.total = r.lastTotal
		r.setNext(r.cur)
	}
}

// CurG is the current goroutine's id (-1 outside runs).
//
//go:norace
func CurG() int {
	if R == nil || R.cur == nil {
		return -1
	}
	return R.cur.ID
}

// Aborted tells whether the run is being torn down.
//
//go:norace
func Aborted() bool { return R != nil && R.aborted }

// Probe is called by instrumented functions on entry; what it returns is deferred.
//
//go:norace
func Probe(name string, args ...any) func() {
	if R == nil || ProbeHook == nil || R.aborted || R.atomic > 0 {
		return nop
	}
	f := ProbeHook(name, args)
	if f == nil {
		return nop
	}
	r := R
	return func() {
		if !r.aborted {
			f()
		}
	}
}

func nop() {}

// firedList counts events without maps (maps would be seen by the race detector).
type firedList struct {
	names []string
	n     []int
}

//go:norace
func (f *firedList) add(s string) {
	for i := range f.names {
		if f.names[i] == s {
			f.n[i]++
			return
		}
	}
	f.names = append(f.names, s)
	f.n = append(f.n, 1)
}

//go:norace
func (f *firedList) toMap() map[string]int {
	m := map[string]int{}
	for i := range f.names {
		m[f.names[i]] += f.n[i]
	}
	return m
}

//go:norace
func (r *Run) fire(s string) { r.fired.add(s) }

// Gosched, GOMAXPROCS, NumCPU, NumGoroutine stand in for package runtime.
//
//go:norace
func Gosched() {
	r := R
	if r == nil || r.aborted || r.atomic > 0 {
		return
	}
	g := r.cur
	g.steps++
	r.account(g)
	if r.O.Replay {
		r.replayPoint(g)
		r.setNext(r.cur)
		return
	}
	if t := r.pickOther(g); t != nil {
		r.record(g, t)
		r.switchTo(t)
		r.setNext(r.cur)
	}
}

//go:norace
func GOMAXPROCS(n int) int { return NumCPU() }

//go:norace
func NumCPU() int {
	if R == nil {
		return 4
	}
	return R.O.NumCPU
}

//go:norace
func NumGoroutine() int {
	if R == nil {
		return 1
	}
	n := 0
	for _, g := range R.gs {
		if g.state != gDone {
			n++
		}
	}
	return n
}
