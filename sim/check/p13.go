package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Crash is a growing run that dies.
type Crash struct {
	GF
	Where int `json:"where"` // per mille of the way
	Mode  int `json:"mode"`  // 0: at a file operation, 1: at a statement, 2: at a write, torn
	Torn  int `json:"torn"`
}

// nRounds is the number of forests a run grows.
func (c *GF) nRounds() int {
	n := 1
	if c.ACE > 0 {
		n = c.ACE
		if c.Cutoff > 0 {
			n++
		}
	}
	return n
}

// wholeTrees parses as many trees as the bytes hold; the last one may lack its end.
func wholeTrees(b []byte) map[string]int {
	out := map[string]int{}
	if i := bytes.LastIndexByte(b, '\n'); i >= 0 {
		b = b[:i+1]
	} else {
		return out
	}
	sf, _ := parseSF(b)
	for _, t := range sf.Trees {
		out[t.Root.String()]++
	}
	return out
}

// recorded watches that trees are in the file when their worker goes on.
type recorded struct {
	q    *GFRun
	bad  string
	seen int
}

func (w *recorded) onGrow(g *Grow, a []any) func() {
	q := w.q
	first := (q.C.nRounds() - 1) * q.C.Trees
	need := map[string]int{}
	last := map[int]*Grow{}
	for i := first; i < q.NGrow; i++ {
		h := q.grows[i]
		if p := last[h.G]; p != nil && p.Snap != nil {
			need[p.Snap.Root.String()]++
		}
		last[h.G] = h
	}
	if len(need) == 0 || w.bad != "" {
		return nil
	}
	b, _ := q.FS.Get("out.sf")
	w.bad = missingTrees(b, need)
	w.seen++
	return nil
}

// missingTrees says which of the finished trees a file lacks.
func missingTrees(b []byte, need map[string]int) string {
	have := wholeTrees(b)
	for s, n := range need {
		if have[s] < n {
			return fmt.Sprintf("%d trees were finished, but the file of %d bytes does not hold this one: %s", len(need), len(b), tail(s, 600))
		}
	}
	return ""
}

func runP13(x *Ctx, c *Crash) {
	c.unique()
	var opts sim.Options
	w := &recorded{}
	q := runGF(x, &c.GF, false, func(o *sim.Options) { opts = *o }, func(q *GFRun) {
		w.q = q
		q.OnGrow = w.onGrow
	})
	x.MustEnd(q.Res, "growforest")
	if w.bad != "" {
		x.Fail("unsaved", "when a worker went on to its next tree: %s", w.bad)
	}
	x.Count("file checked while growing", w.seen)
	whole, _ := q.FS.Get("out.sf")
	q2 := runGF(x, &c.GF, false, func(o *sim.Options) {
		*o = opts
		switch c.Mode {
		case 1:
			o.CrashStep = 1 + q.Res.Steps*uint64(c.Where)/1000
		default:
			o.CrashAt = 1 + q.Res.FileOps*c.Where/1000
			if o.CrashAt > q.Res.FileOps {
				o.CrashAt = q.Res.FileOps
			}
			o.CrashTorn = c.Torn
		}
	}, nil)
	if cl, m := Died(q2.Res); cl != "" {
		x.Fail(cl, "%s", m)
	}
	if !q2.Res.Crashed {
		x.Count("ended before the crash", 1)
		return
	}
	b, ok := q2.FS.Get("out.sf")
	if !ok {
		for i := (c.nRounds() - 1) * c.Trees; i < q2.NGrow; i++ {
			x.Fail("no-file", "the process died while growing the forest that is to be saved, and there is no file")
		}
		return
	}
	if !bytes.HasPrefix(whole, b) {
		x.Fail("altered", "what the file holds at the crash is not the beginning of what the run writes: it ends in %q", tail(string(b), 300))
	}
	need := map[string]int{}
	last := map[int]*Grow{}
	for i := (c.nRounds() - 1) * c.Trees; i < q2.NGrow; i++ {
		h := q2.grows[i]
		if p := last[h.G]; p != nil && p.Snap != nil {
			need[p.Snap.Root.String()]++
		}
		last[h.G] = h
	}
	if m := missingTrees(b, need); m != "" {
		x.Fail("lost", "after the crash: %s", m)
	}
	have := 0
	for _, n := range wholeTrees(b) {
		have += n
	}
	if c.Progress && c.ACE == 0 {
		if n := strings.Count(string(q2.Res.Stdout), "Model oob error after tree "); n > have {
			x.Fail("lost-reported", "%d trees were reported finished before the crash, the file holds %d", n, have)
		}
	}
	x.Count("crashes", 1)
	x.Count("trees surviving", have)
	if len(need) > 0 {
		x.Count("crashes after a tree was finished", 1)
	}
	// the reader makes sense of what is there
	var trees []string
	var err error
	res := x.Lib(nil, nil, func() {
		var f *CF.Forest
		f, err = CF.NewForestReader(sim.NewStream(append([]byte(nil), b...))).ReadForest()
		if f != nil {
			for _, t := range f.Trees {
				trees = append(trees, snapshot(t).Root.String())
			}
		}
	})
	x.MustEnd(res, "loading what the crash left")
	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
		x.Fail("unreadable", "loading what the crash left fails: %v", err)
	}
	ref, rerr := parseSF(whole)
	if rerr != nil {
		x.Fail("malformed", "%v", rerr)
	}
	for i, s := range trees {
		if i >= len(ref.Trees) || i < len(trees)-1 && s != ref.Trees[i].Root.String() {
			x.Fail("reader", "tree %d of %d loaded after the crash is %s", i, len(trees), tail(s, 500))
		}
	}
	if len(trees) < len(need) {
		x.Fail("reader", "%d trees are loaded after the crash, %d were finished", len(trees), len(need))
	}
}

func (c Crash) shrinks() []Crash {
	var out []Crash
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		out = append(out, d)
	}
	for _, f := range []func(d *Crash){
		func(d *Crash) { d.Torn = 0 },
		func(d *Crash) { d.Where = d.Where / 2 },
		func(d *Crash) { d.Where = 999 },
	} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

func init() {
	gen := func(r *sim.RNG) Crash {
		c := Crash{GF: genGF(r), Where: r.Intn(1000), Mode: r.Intn(3), Torn: r.Intn(1001)}
		c.Trees = 2 + r.Intn(12)
		c.OOB = r.Intn(3) == 0
		c.Progress = r.Intn(3) == 0
		c.SelfTest = r.Intn(4) == 0
		c.Imp = r.Intn(5) == 0
		return c
	}
	register(&Property{ID: "P13", Quick: 8000, Real: append([]string{"forest reader"}, growReal...), Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) Crash { return gen(r) }, runP13, Crash.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) Crash {
			c := gen(r)
			c.kind(r)
			return c
		}, runP13, Crash.shrinks),
		scen("boost", 1, func(r *sim.RNG, tier string) Crash {
			c := gen(r)
			c.boost(r)
			return c
		}, runP13, Crash.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) Crash {
			c := gen(r)
			c.ACE = 2
			c.Trees = 2 + r.Intn(5)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			}
			return c
		}, runP13, Crash.shrinks),
	}})
}
