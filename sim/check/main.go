package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"cfsim/sim"
)

// finding is one line of the known-findings file: a violation of property whose class and message contain the
// given texts is reported as KNOWN-FINDING.
type finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func loadFindings(path string) []finding {
	var out []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var f finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			die("known findings:", err)
		}
		if f.Fixed == "" {
			out = append(out, f)
		}
	}
	return out
}

func isKnown(fs []finding, prop string, o *Outcome) *finding {
	for i, f := range fs {
		if f.Property == prop && f.Class == o.Class && strings.Contains(o.Msg, f.Contains) {
			return &fs[i]
		}
	}
	return nil
}

// report is what a worker tells its parent, one JSON object per line.
type report struct {
	Kind   string   `json:"kind"` // "start", "done", "viol"
	Index  int      `json:"index"`
	Hash   uint64   `json:"hash,omitempty"`
	Stats  *Stats   `json:"stats,omitempty"`
	Class  string   `json:"class,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Hashes []uint64 `json:"hashes,omitempty"`
	States []uint64 `json:"states,omitempty"`
	Redone int      `json:"redone,omitempty"`
	Skips  int      `json:"skips,omitempty"`
	Known  []string `json:"known,omitempty"`
}

var (
	verifDir = flag.String("verif", "/verif", "where evidence and replay files go")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seedFlag = flag.Uint64("seed", 0, "base seed (0: from VERIF_SEED)")
	workers  = flag.Int("workers", 8, "worker processes")
	budget   = flag.Duration("budget", 0, "stop starting cases after this long (0: tier default)")
	cases    = flag.Int("cases", 0, "number of cases (0: tier default)")
	wfrom    = flag.Int("wfrom", 0, "worker: first index")
	wstep    = flag.Int("wstep", 1, "worker: stride")
	isWorker = flag.Bool("worker", false, "worker process")
	one      = flag.Int("one", -1, "run a single index and print what happens")
	noMin    = flag.Bool("nomin", false, "do not minimise")
	only     = flag.String("only", "", "only this scenario (debugging)")
)

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 1 {
		die("usage: simcheck [flags] PROPERTY | replay FILE")
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(128 << 20)
	if args[0] == "replay" {
		os.Exit(replayFile(args[1]))
	}
	p := properties[args[0]]
	if p == nil {
		die("unknown property", args[0])
	}
	if *only != "" {
		var keep []*Scenario
		for _, s := range p.Scenarios {
			if s.Name == *only {
				keep = append(keep, s)
			}
		}
		p.Scenarios = keep
	}
	base := *seedFlag
	if base == 0 {
		base = 1
		if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil && v > 0 {
			base = v
		}
	}
	if p.Race != sim.RaceEnabled {
		die("property", p.ID, "needs race =", p.Race)
	}
	if *one >= 0 {
		c := genCase(p, base, *one, *tier)
		t := time.Now()
		o := runCase(p, c, *tier)
		fmt.Printf("scenario %s config %s\n", c.Scenario, c.Config)
		fmt.Printf("class=%q msg=%s hash=%x time=%v\n", o.Class, o.Msg, o.Hash, time.Since(t))
		b, _ := json.Marshal(o.Stats)
		fmt.Println(string(b))
		return
	}
	if *isWorker {
		runWorker(p, base)
		return
	}
	os.Exit(parent(p, base))
}

func runWorker(p *Property, base uint64) {
	runtime.GOMAXPROCS(1)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	fs := loadFindings(filepath.Join(*verifDir, "known-findings.jsonl"))
	start := time.Now()
	var st Stats
	var hashes []uint64
	redone, skips := 0, 0
	var known []string
	last := time.Now()
	flush := func(i int) {
		enc.Encode(report{Kind: "done", Index: i, Stats: &st, Hashes: hashes, Redone: redone, Skips: skips, Known: known})
		out.Flush()
		st = Stats{}
		hashes = nil
		redone, skips = 0, 0
		known = nil
		last = time.Now()
	}
	n := 0
	i := *wfrom
	for ; *cases == 0 || i < *cases; i += *wstep {
		if *budget > 0 && time.Since(start) > *budget {
			break
		}
		enc.Encode(report{Kind: "start", Index: i})
		out.Flush()
		c := genCase(p, base, i, *tier)
		o := runCase(p, c, *tier)
		st.add(&o.Stats)
		if o.Skip {
			skips++
		}
		if o.Stats.MultiG > 0 || len(o.Stats.Fired) > 0 || o.Stats.Draws > 0 || o.Stats.Probes["nontrivial"] > 0 {
			hashes = append(hashes, o.Hash)
		}
		if o.Class == "" && n%16 == 3 {
			// the same seed must give the same execution
			o2 := runCase(p, genCase(p, base, i, *tier), *tier)
			redone++
			if o2.Hash != o.Hash || o2.Class != o.Class {
				enc.Encode(report{Kind: "viol", Index: i, Class: "harness-nondeterminism", Msg: fmt.Sprintf("seed %d: %x then %x %s", c.Seed, o.Hash, o2.Hash, o2.Class)})
				out.Flush()
			}
		}
		if o.Class != "" {
			if f := isKnown(fs, p.ID, &o); f != nil {
				known = append(known, f.What)
			} else {
				flush(i)
				enc.Encode(report{Kind: "viol", Index: i, Class: o.Class, Msg: o.Msg})
				out.Flush()
				return
			}
		}
		n++
		if time.Since(last) > 2*time.Second {
			flush(i)
		}
	}
	flush(i)
	enc.Encode(report{Kind: "end", Index: i})
	out.Flush()
}

func parent(p *Property, base uint64) int {
	start := time.Now()
	ncases, bud := p.Quick, time.Duration(0)
	if *tier == "thorough" {
		ncases = 0
		bud = 12 * time.Minute
	}
	if *cases > 0 {
		ncases = *cases
	}
	if *budget > 0 {
		bud = *budget
		if *cases == 0 {
			ncases = 0
		}
	}
	if bud == 0 {
		bud = 10 * time.Minute // safety net for slow machines
	}
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	var mu sync.Mutex
	var total Stats
	hashSet := map[uint64]bool{}
	redone, skips := 0, 0
	knownSeen := map[string]int{}
	var viols []report
	stop := false
	var wg sync.WaitGroup
	var procs []*exec.Cmd
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			for {
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				left := bud - time.Since(start)
				args := []string{"-worker", "-tier", *tier, "-verif", *verifDir, "-seed", fmt.Sprint(base), "-wfrom", fmt.Sprint(from), "-wstep", fmt.Sprint(*workers), "-cases", fmt.Sprint(ncases), "-budget", left.String(), "-only", *only, p.ID}
				cmd := exec.Command(self, args...)
				var errb tailBuf
				cmd.Stderr = &errb
				pipe, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					mu.Unlock()
					die(err)
				}
				procs = append(procs, cmd)
				mu.Unlock()
				running, ended := -1, false
				rd := bufio.NewReaderSize(pipe, 1<<20)
				var dog atomic.Bool
				activity := time.AfterFunc(4*time.Minute, func() { dog.Store(true); cmd.Process.Kill() })
				for {
					line, err := rd.ReadBytes('\n')
					if err != nil {
						break
					}
					activity.Reset(4 * time.Minute)
					var r report
					if json.Unmarshal(line, &r) != nil {
						continue
					}
					mu.Lock()
					switch r.Kind {
					case "start":
						running = r.Index
					case "done":
						total.add(r.Stats)
						for _, h := range r.Hashes {
							hashSet[h] = true
						}
						redone += r.Redone
						skips += r.Skips
						for _, k := range r.Known {
							knownSeen[k]++
						}
					case "viol":
						viols = append(viols, r)
						stop = true
					case "end":
						ended = true
					}
					mu.Unlock()
					if r.Kind == "viol" {
						mu.Lock()
						for _, q := range procs {
							if q != cmd && q.ProcessState == nil {
								q.Process.Kill()
							}
						}
						mu.Unlock()
					}
				}
				activity.Stop()
				err := cmd.Wait()
				mu.Lock()
				if ended || stop {
					mu.Unlock()
					return
				}
				// the worker died: the case it was running brought it down
				msg := fmt.Sprintf("the process running the case ended: %v\n%s", err, errb.String())
				if running < 0 || dog.Load() {
					fmt.Fprintln(os.Stderr, "harness error: case", running, "watchdog", dog.Load(), msg)
					os.Exit(3)
				}
				viols = append(viols, report{Kind: "viol", Index: running, Class: "fatal", Msg: msg})
				stop = true
				for _, q := range procs {
					if q != cmd && q.ProcessState == nil {
						q.Process.Kill()
					}
				}
				mu.Unlock()
				return
			}
		}(w)
	}
	wg.Wait()
	searchTime := time.Since(start)
	fs := loadFindings(filepath.Join(*verifDir, "known-findings.jsonl"))
	for _, f := range fs {
		if f.Property == p.ID {
			// replayed by its own scenario on every run; say so whether or not this search met it
			fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times)\n", p.ID, f.What, knownSeen[f.What])
		}
	}
	rc := 0
	result := "held"
	detail := ""
	if len(viols) > 0 {
		v := viols[0]
		for _, q := range viols {
			if q.Index < v.Index {
				v = q
			}
		}
		if v.Class == "harness-nondeterminism" {
			fmt.Fprintln(os.Stderr, "harness error:", v.Msg)
			return 3
		}
		c := genCase(p, base, v.Index, *tier)
		c.Class, c.Msg = v.Class, v.Msg
		dir := filepath.Join(*verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, v.Index))
		if v.Class == "fatal" {
			writeCase(file, c)
		} else {
			o := runCase(p, genCase(p, base, v.Index, *tier), *tier)
			for k := 0; k < 10 && v.Class == "race" && o.Class == ""; k++ {
				// the detector keeps only the last accesses to a word and may miss a race it saw before
				o = runCase(p, genCase(p, base, v.Index, *tier), *tier)
			}
			if v.Class == "race" && o.Class == "" {
				o.Class, o.Msg = v.Class, v.Msg
				*noMin = true
			}
			if o.Class == "" {
				fmt.Fprintf(os.Stderr, "harness error: case %d failed in a worker (%s: %s) but not here\n", v.Index, v.Class, v.Msg)
				return 3
			}
			if !*noMin {
				c, o = minimise(p, c, o, time.Now().Add(45*time.Second))
			}
			c.Class, c.Msg = o.Class, o.Msg
			writeCase(file, c)
		}
		fmt.Printf("%s: %s: %s\n", p.ID, c.Class, c.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		rc = 1
		result = "violated"
		detail = c.Class + ": " + firstLines(c.Msg, 3)
	}
	writeEvidence(p, base, total, len(hashSet), redone, skips, knownSeen, searchTime, result, detail, rc)
	fmt.Printf("%s %s: %d histories (%d program runs, %d with several goroutines), %d distinct, %d statements, %d context switches, %.1f s simulated, %.1f s real\n",
		p.ID, result, total.Runs, total.Execs, total.MultiG, len(hashSet), total.Steps, total.Switches, float64(total.SimTime)/1e9, searchTime.Seconds())
	return rc
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	if len(t.b) > 4000 {
		return string(t.b[:4000])
	}
	return string(t.b)
}

func writeCase(file string, c *Case) {
	b, _ := json.MarshalIndent(c, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0644); err != nil {
		die(err)
	}
}

func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		die(err)
	}
	p := properties[c.Property]
	if p == nil {
		die("unknown property", c.Property)
	}
	if p.Race != sim.RaceEnabled {
		die("property", p.ID, "needs race =", p.Race)
	}
	o := runCase(p, &c, "quick")
	for k := 0; k < 10 && c.Class == "race" && o.Class == ""; k++ {
		o = runCase(p, &c, "quick")
	}
	for i, e := range o.Execs {
		fmt.Printf("run %d: faults %v crash at file operation %d; scheduling decisions:", i, e.Faults, e.CrashAt)
		for j, d := range e.Decisions {
			if j == 60 {
				fmt.Printf(" ... (%d in all)", len(e.Decisions))
				break
			}
			fmt.Printf(" g%d@%d->g%d", d.G, d.At, d.To)
		}
		fmt.Println()
	}
	if o.Class == "" {
		fmt.Printf("%s: held on this history (recorded: %s)\n", c.Property, c.Class)
		return 0
	}
	fmt.Printf("%s: %s: %s\n", c.Property, o.Class, o.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, file)
	return 1
}
