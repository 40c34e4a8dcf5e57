// Package main is the harness: it generates scenarios, runs the instrumented programs under the simulator and
// judges what they did.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"cfsim/progs"
	"cfsim/sim"
)

// Case is one fully determined simulated history: replaying it gives the same execution.
type Case struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Seed     uint64          `json:"seed"`
	Config   json.RawMessage `json:"config"`
	// Execs pins the options (schedule decisions, faults) of each simulated program run of the history.
	// Empty: everything follows from Seed.
	Execs []sim.Options `json:"execs,omitempty"`
	Class string        `json:"class,omitempty"`
	Msg   string        `json:"message,omitempty"`
	Trace []string      `json:"trace,omitempty"`
}

// Outcome of running a case.
type Outcome struct {
	Class string // "" when the property held
	Msg   string
	Execs []sim.Options // as run, with their decisions
	Hash  uint64
	Stats Stats
	Known string // set when the violation matches a known finding
	Skip  bool
}

// Stats are summed over runs for the evidence.
type Stats struct {
	Runs      int            `json:"runs"`
	Execs     int            `json:"execs"`
	Steps     uint64         `json:"steps"`
	Switches  int            `json:"switches"`
	Preempts  int            `json:"preempts"`
	SimTime   int64          `json:"sim_time"`
	FileOps   int            `json:"file_ops"`
	SyncOps   uint64         `json:"sync_ops"`
	MultiG    int            `json:"multi_g"`
	Draws     uint64         `json:"draws"`
	Fired     map[string]int `json:"fired"`
	Probes    map[string]int `json:"probes"`
	Scenarios map[string]int `json:"scenarios"`
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Execs += o.Execs
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	s.SimTime += o.SimTime
	s.FileOps += o.FileOps
	s.SyncOps += o.SyncOps
	s.MultiG += o.MultiG
	s.Draws += o.Draws
	add := func(a *map[string]int, b map[string]int) {
		if *a == nil {
			*a = map[string]int{}
		}
		for k, v := range b {
			(*a)[k] += v
		}
	}
	add(&s.Fired, o.Fired)
	add(&s.Probes, o.Probes)
	add(&s.Scenarios, o.Scenarios)
}

// violation is panicked by Ctx.Fail to leave a scenario.
type violation struct{ class, msg string }
type skipRun struct{}

// Ctx is what a scenario sees.
type Ctx struct {
	c      *Case
	r      sim.RNG // free randomness of the scenario, from the seed
	n      int     // program runs so far
	execs  []sim.Options
	cur    sim.Options // of the run that is going on
	hash   uint64
	stats  Stats
	replay bool
	tier   string
}

// Fail reports a violation. Class names the kind of failure, for minimisation and known findings.
func (x *Ctx) Fail(class, format string, a ...any) {
	panic(violation{class, fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (x *Ctx) Check(ok bool, class, format string, a ...any) {
	if !ok {
		x.Fail(class, format, a...)
	}
}

// Count counts something for the evidence.
func (x *Ctx) Count(name string, n int) {
	if x.stats.Probes == nil {
		x.stats.Probes = map[string]int{}
	}
	x.stats.Probes[name] += n
}

// Opts draws the options of the next program run.
func (x *Ctx) Opts() sim.Options {
	r := sim.RNG{S: sim.Mix(x.c.Seed, uint64(1000+x.n))}
	o := sim.Options{Seed: r.Next(), RandSeed: r.Next(), ChunkSeed: r.Next(), MapSeed: 1 + r.Next()%1000000,
		Clock: 1600000000e9 + int64(r.Next()%1e15), NumCPU: 1 + r.Intn(8)}
	o.RandSalt = sim.Mix(o.RandSeed, 5)
	switch r.Intn(10) {
	case 0:
		o.Policy = sim.Policy{PCT: true, PCTSteps: 200, PCTDepth: 1 + r.Intn(4)}
	case 1:
		o.Policy = sim.Policy{PCT: true, PCTSteps: 20000, PCTDepth: 1 + r.Intn(4)}
	case 2:
		o.Policy = sim.Policy{Gap: 2, SyncP: 0.5}
	case 3, 4:
		o.Policy = sim.Policy{Gap: 10, SyncP: 0.3}
	case 5, 6:
		o.Policy = sim.Policy{Gap: 60, SyncP: 0.5}
	case 7, 8:
		o.Policy = sim.Policy{Gap: 800, SyncP: 0.7}
	default:
		o.Policy = sim.Policy{Gap: 0, SyncP: 0.8}
	}
	if r.Intn(3) == 0 {
		o.Chunk = 2 + r.Intn(3)
	}
	if r.Intn(4) == 0 {
		o.ClockJump = 0.3
	}
	if r.Intn(4) == 0 {
		o.RandMode = 1
	}
	return o
}

// Exec runs body as a simulated program. mod adjusts the options drawn from the seed; it is not consulted when
// the case pins them.
func (x *Ctx) Exec(fs *sim.FS, mod func(*sim.Options), body func()) *sim.Result {
	var o sim.Options
	if x.n < len(x.c.Execs) {
		o = x.c.Execs[x.n]
		o.Replay = true
	} else {
		o = x.Opts()
		if mod != nil {
			mod(&o)
		}
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 400000000
	}
	x.n++
	if fs == nil {
		fs = sim.NewFS()
	}
	x.cur = o
	res := sim.Exec(o, fs, body)
	rec := o
	rec.Replay = true
	rec.Decisions = res.Decisions
	x.execs = append(x.execs, rec)
	x.hash = sim.Mix(x.hash, res.Hash)
	x.hash = sim.Mix(x.hash, res.SchedHash)
	x.hash = sim.Mix(x.hash, sim.HashString(string(res.Stdout)))
	for _, n := range fs.Names() {
		b, _ := fs.Get(n)
		x.hash = sim.Mix(x.hash, sim.HashString(n+string(b)))
	}
	st := Stats{Execs: 1, Steps: res.Steps, Switches: res.Switches, Preempts: res.Preempts, SimTime: res.SimTime,
		FileOps: res.FileOps, SyncOps: res.SyncOps, Draws: res.Draws, Fired: res.Fired}
	if res.Gs > 1 {
		st.MultiG = 1
	}
	x.stats.add(&st)
	return res
}

// Tool runs one of the repository's programs.
func (x *Ctx) Tool(name string, args []string, fs *sim.FS, mod func(*sim.Options)) *sim.Result {
	p := progs.Progs[name]
	if p == nil || p.Main == nil {
		panic("no program " + name)
	}
	return x.Exec(fs, mod, func() {
		sim.NewCommandLine(append([]string{name}, args...))
		for _, f := range p.Reset {
			f()
		}
		p.Main()
	})
}

// Lib runs body with the library's packages freshly initialised.
func (x *Ctx) Lib(fs *sim.FS, mod func(*sim.Options), body func()) *sim.Result {
	p := progs.Progs[""]
	return x.Exec(fs, mod, func() {
		sim.NewCommandLine([]string{"lib"})
		for _, f := range p.Reset {
			f()
		}
		body()
	})
}

// Died describes an abnormal end ("" if the program ended by itself).
func Died(r *sim.Result) (class, msg string) {
	switch {
	case r.Panic != "":
		return "panic", "the program panicked: " + firstLines(r.Panic, 24)
	case r.Deadlock:
		return "deadlock", "the program hangs: " + r.Blocked
	case r.StepCap:
		return "livelock", fmt.Sprintf("the program does not end within %d statements: %s", r.Steps, r.Blocked)
	}
	return "", ""
}

// MustEnd requires a normal, successful end.
func (x *Ctx) MustEnd(r *sim.Result, what string) {
	if c, m := Died(r); c != "" {
		x.Fail(c, "%s: %s", what, m)
	}
	if r.Exit != 0 {
		x.Fail("exit", "%s: failed with status %d although nothing went wrong: %s", what, r.Exit, tail(string(r.Stderr), 400))
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func tail(s string, n int) string {
	if len(s) > n {
		s = "..." + s[len(s)-n:]
	}
	return s
}

// Scenario is one family of histories.
type Scenario struct {
	Name   string
	Weight int
	Gen    func(r *sim.RNG, tier string) any
	New    func() any
	Run    func(x *Ctx, cfg any)
	Shrink func(cfg any) []any
}

// scen builds a Scenario over a config type.
func scen[C any](name string, weight int, gen func(r *sim.RNG, tier string) C, run func(x *Ctx, c *C), shrink func(c C) []C) *Scenario {
	return &Scenario{Name: name, Weight: weight,
		Gen: func(r *sim.RNG, tier string) any { c := gen(r, tier); return &c },
		New: func() any { return new(C) },
		Run: func(x *Ctx, cfg any) { run(x, cfg.(*C)) },
		Shrink: func(cfg any) []any {
			if shrink == nil {
				return nil
			}
			var out []any
			for _, c := range shrink(*cfg.(*C)) {
				c := c
				out = append(out, &c)
			}
			return out
		}}
}

// Property ties scenarios to a property of properties.jsonl.
type Property struct {
	ID        string
	Race      bool
	Quick     int // cases of the quick tier
	Scenarios []*Scenario
	Real      []string
	Stub      []string
	Notes     string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// runCase runs one case and judges it.
func runCase(p *Property, c *Case, tier string) (out Outcome) {
	var s *Scenario
	for _, q := range p.Scenarios {
		if q.Name == c.Scenario {
			s = q
		}
	}
	if s == nil {
		return Outcome{Class: "harness", Msg: "unknown scenario " + c.Scenario}
	}
	cfg := s.New()
	if err := json.Unmarshal(c.Config, cfg); err != nil {
		return Outcome{Class: "harness", Msg: err.Error()}
	}
	x := &Ctx{c: c, tier: tier, r: sim.RNG{S: sim.Mix(c.Seed, 5)}}
	x.stats.Runs = 1
	x.stats.Scenarios = map[string]int{s.Name: 1}
	if os.Getenv("SIM_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "slow: %v %s %s\n", d, c.Scenario, c.Config)
			}
		}()
	}
	defer func() {
		sim.ProbeHook = nil
		sim.OnFileOp = nil
		out.Execs = x.execs
		out.Hash = x.hash
		out.Stats = x.stats
		if e := recover(); e != nil {
			switch v := e.(type) {
			case violation:
				out.Class, out.Msg = v.class, v.msg
			case skipRun:
				out.Skip = true
			default:
				// what was observed cannot be judged at all
				out.Class, out.Msg = "unjudgeable", fmt.Sprintf("judging the run failed: %v\n%s", e, debug.Stack())
			}
		}
	}()
	s.Run(x, cfg)
	return
}

// genCase derives the i-th case of a search.
func genCase(p *Property, base uint64, i int, tier string) *Case {
	seed := sim.Mix(sim.Mix(base, sim.HashString(p.ID)), uint64(i))
	r := &sim.RNG{S: sim.Mix(seed, 3)}
	tot := 0
	for _, s := range p.Scenarios {
		tot += s.Weight
	}
	// scenarios take turns, so that even a short search meets all of them
	k := i % tot
	var s *Scenario
	for _, q := range p.Scenarios {
		if k < q.Weight {
			s = q
			break
		}
		k -= q.Weight
	}
	cfg := s.Gen(r, tier)
	b, err := json.Marshal(cfg)
	if err != nil {
		panic(err)
	}
	return &Case{Property: p.ID, Scenario: s.Name, Seed: seed, Config: b}
}

// minimise shrinks a failing case: configuration first (searching a few schedules for each candidate), then the
// scheduling decisions and faults.
func minimise(p *Property, c *Case, first Outcome, deadline time.Time) (*Case, Outcome) {
	best, bout := *c, first
	var s *Scenario
	for _, q := range p.Scenarios {
		if q.Name == c.Scenario {
			s = q
		}
	}
	// configuration
	progress := true
	for progress && time.Now().Before(deadline) {
		progress = false
		cfg := s.New()
		json.Unmarshal(best.Config, cfg)
		for _, cand := range s.Shrink(cfg) {
			if time.Now().After(deadline) {
				break
			}
			b, _ := json.Marshal(cand)
			if string(b) == string(best.Config) {
				continue
			}
			for k := 0; k < 12; k++ {
				n := Case{Property: c.Property, Scenario: c.Scenario, Seed: best.Seed, Config: b}
				if k > 0 {
					n.Seed = sim.Mix(best.Seed, uint64(k))
				}
				o := runCase(p, &n, "quick")
				if o.Class == first.Class {
					best, bout = n, o
					progress = true
					break
				}
				if time.Now().After(deadline) {
					break
				}
			}
			if progress {
				break
			}
		}
	}
	// pin the schedule
	pinned := best
	pinned.Execs = bout.Execs
	po := runCase(p, &pinned, "quick")
	if po.Class != first.Class {
		// replay by decisions does not reproduce it: keep the seed-determined form
		best.Class, best.Msg = bout.Class, bout.Msg
		return &best, bout
	}
	pout := po
	try := func(n Case) bool {
		o := runCase(p, &n, "quick")
		if o.Class == first.Class {
			pinned, pout = n, o
			return true
		}
		return false
	}
	withExec := func(i int, f func(o *sim.Options)) Case {
		n := pinned
		n.Execs = append([]sim.Options(nil), pinned.Execs...)
		f(&n.Execs[i])
		return n
	}
	for i := range pinned.Execs {
		// faults
		for j := 0; j < len(pinned.Execs[i].Faults); {
			n := withExec(i, func(o *sim.Options) {
				o.Faults = append(append([]sim.Fault(nil), o.Faults[:j]...), o.Faults[j+1:]...)
			})
			if time.Now().After(deadline) || !try(n) {
				j++
			}
		}
		for _, f := range []func(o *sim.Options){
			func(o *sim.Options) { o.Decisions = nil },
			func(o *sim.Options) { o.Chunk = 0 },
			func(o *sim.Options) { o.ClockJump = 0 },
			func(o *sim.Options) { o.MapSeed = 0 },
			func(o *sim.Options) { o.RandMode = 0 },
			func(o *sim.Options) { o.DiskCap = 0 },
		} {
			if time.Now().Before(deadline) {
				try(withExec(i, f))
			}
		}
		// ddmin over the decisions
		n := 2
		for len(pinned.Execs[i].Decisions) > 0 && time.Now().Before(deadline) {
			d := pinned.Execs[i].Decisions
			if n > len(d) {
				n = len(d)
			}
			size := (len(d) + n - 1) / n
			reduced := false
			for k := 0; k < len(d) && time.Now().Before(deadline); k += size {
				e := k + size
				if e > len(d) {
					e = len(d)
				}
				rest := append(append([]sim.Decision(nil), d[:k]...), d[e:]...)
				if try(withExec(i, func(o *sim.Options) { o.Decisions = rest })) {
					reduced = true
					break
				}
			}
			if reduced {
				if n > 2 {
					n--
				}
				continue
			}
			if n >= len(d) {
				break
			}
			n *= 2
		}
	}
	// the decisions actually taken are what must be replayed
	pinned.Class, pinned.Msg = pout.Class, pout.Msg
	return &pinned, pout
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}
