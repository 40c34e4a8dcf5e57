package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// raceText is the detector's last report, if the environment says where reports go.
func raceText() string {
	for _, w := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(w, "log_path="); ok {
			m, _ := filepath.Glob(fmt.Sprintf("%s.%d", p, os.Getpid()))
			for _, f := range m {
				b, _ := os.ReadFile(f)
				s := string(b)
				if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
					s = s[i:]
				}
				return firstLines(s, 40)
			}
		}
	}
	return ""
}

// noRaces fails when the run had data races.
func (x *Ctx) noRaces(r *sim.Result) {
	if r.Races > 0 {
		x.Fail("race", "%d data races between the program's goroutines; the last one:\n%s", r.Races, raceText())
	}
}

// regrow checks, at the end of each growth, that the tree is what a lone worker with fresh scratch space grows.
type regrow struct {
	diff  [64]string
	done  [64]int
	multi [64]int
}

func (w *regrow) onGrow(g *Grow, a []any) func() {
	fm, target := a[1].(*CF.FeatureMatrix), a[2].(CF.Target)
	allocs := a[16].(*CF.BestSplitAllocs)
	mark := sim.RandMark()
	st := sim.SourceState(allocs.Rnd)
	var state uint64
	if st != nil {
		state = *st
	}
	n := fm.Data[0].Length()
	if len(g.Bag) > n {
		n = len(g.Bag)
	}
	k := g.G & 63
	return func() {
		sim.Atomic(func() {
			after := sim.RandMark()
			sized := target
			if _, ok := target.(CF.Feature); !ok { // density estimation has no target feature
				sized = fm.Data[fm.Map[g.Tree.Target]].(CF.Target)
			}
			fresh := CF.NewBestSplitAllocs(n, sized)
			if fs := sim.SourceState(fresh.Rnd); fs != nil && st != nil {
				*fs = state
			}
			sim.RandReset(mark)
			t := CF.NewTree()
			t.Target = g.Tree.Target
			f := t.Grow
			if g.Jungle {
				f = t.GrowJungle
			}
			f(fm, target, copyInts(g.Bag), copyInts(g.Cand), copyInts(g.OOB), g.MTry, g.Leaf, g.Depth, g.SplitM, g.Force, g.Vet, g.Eval, g.Extra, nil, nil, fresh)
			alone := snapshot(t).Root.String()
			got := g.Snap.Root.String()
			switch {
			case w.diff[k] != "":
			case alone != got:
				w.diff[k] = fmt.Sprintf("goroutine %d grew\n  %s\nbut alone, from the same bag and the same random numbers, it grows\n  %s", g.G, tail(got, 700), tail(alone, 700))
			default:
				l1, p1 := g.Tree.Partition(fm)
				l2, p2 := t.Partition(fm)
				if fmt.Sprint(*l1, *p1) != fmt.Sprint(*l2, *p2) {
					w.diff[k] = fmt.Sprintf("goroutine %d grew %s, which parts the cases into %v %v; grown alone the same tree parts them into %v %v", g.G, tail(got, 500), *l1, *p1, *l2, *p2)
				}
			}
			w.done[k]++
			sim.RandReset(after)
		})
	}
}

func runRegrow(x *Ctx, c *GF) {
	w := &regrow{}
	q := runGF(x, c, false, nil, func(q *GFRun) { q.OnGrow = w.onGrow })
	if cl, m := Died(q.Res); cl != "" {
		x.Fail(cl, "%s", m)
	}
	for _, d := range w.diff {
		if d != "" {
			x.Fail("regrow", "%s", d)
		}
	}
	x.noRaces(q.Res)
	n := 0
	for _, k := range w.done {
		n += k
		if k > 1 {
			x.Count("trees grown reusing scratch space", k-1)
		}
	}
	x.Check(n > 0, "no-tree", "no tree was grown")
	x.Count("trees regrown alone", n)
}

func init() {
	register(&Property{ID: "P02", Race: true, Quick: 8000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 2, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Trees = 2 + r.Intn(10)
			c.Cores = 2 + r.Intn(4)
			c.OOB = r.Intn(2) == 0
			c.Progress = r.Intn(4) == 0
			c.Imp = r.Intn(2) == 0
			c.SelfTest = r.Intn(3) == 0
			c.Scikit = r.Intn(8) == 0
			c.Jungle = r.Intn(8) == 0
			return c
		}, runRegrow, GF.shrinks),
		scen("kinds", 2, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Trees = 2 + r.Intn(8)
			c.Cores = 1 + r.Intn(4)
			c.kind(r)
			c.OOB = r.Intn(2) == 0
			c.Imp = r.Intn(3) == 0
			return c
		}, runRegrow, GF.shrinks),
		scen("reuse", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Trees = 4 + r.Intn(16)
			c.Cores = 1
			if r.Intn(2) == 0 {
				c.Cores = 2
			}
			c.Vet = r.Intn(2) == 0
			c.EvalOOB = r.Intn(2) == 0
			c.Imp = true
			c.valid()
			return c
		}, runRegrow, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Trees = 2 + r.Intn(4)
			c.Cores = 2 + r.Intn(4)
			c.ACE = 2 + r.Intn(2)
			c.Imp = r.Intn(2) == 0
			if r.Intn(2) == 0 {
				c.Cutoff = 0.6
			}
			return c
		}, runRegrow, GF.shrinks),
		scen("boost", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Trees = 1 + r.Intn(8)
			c.boost(r)
			return c
		}, runRegrow, GF.shrinks),
		scen("library", 2, func(r *sim.RNG, tier string) LG { return genLG(r, r.Intn(8) == 0) }, runLibRegrow, LG.shrinks),
	}})
}

// boost makes it a boosting run.
func (c *GF) boost(r *sim.RNG) {
	c.T.TMiss = 0
	c.Impute = false
	c.Balance = false
	c.LeafSize = []string{"1", "2", "3", ".2", ""}[r.Intn(5)]
	c.NSamples = ""
	switch r.Intn(3) {
	case 0:
		c.Ada = true
	case 1:
		c.GBT = []float64{0.1, 0.5, 1}[r.Intn(3)]
	default:
		if c.T.Target == "cat" {
			c.Kind = "adacost"
			c.Ada = r.Intn(4) > 0
		} else {
			c.GBT = 0.3
		}
	}
	if c.GBT > 0 && c.T.Target == "cat" {
		c.T.TCats = 2
	}
}
