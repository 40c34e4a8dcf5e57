package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strconv"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// LG grows forests through the library: several callers share one table and one target.
type LG struct {
	C      GF   `json:"c"`
	Tasks  int  `json:"tasks"`
	Forest bool `json:"forest,omitempty"` // GrowRandomForest, else one Tree.Grow (or GrowJungle) after the other
	Reuse  bool `json:"reuse,omitempty"`  // all trees of a caller are grown in the same Tree
	Vote   bool `json:"vote,omitempty"`   // callers vote with their trees into a shared box while others still grow
	Count  bool `json:"count,omitempty"`  // and count co-occurrences in leaves in a shared counter
}

func genLG(r *sim.RNG, boost bool) LG {
	g := genGF(r)
	c := LG{C: GF{T: g.T, Trees: 1 + r.Intn(4), MaxDepth: g.MaxDepth, SplitM: g.SplitM, Force: g.Force, Vet: g.Vet, Extra: g.Extra, Imp: r.Intn(3) == 0},
		Tasks: 2 + r.Intn(4), Forest: r.Intn(2) == 0, Vote: r.Intn(2) == 0, Count: r.Intn(3) == 0, Reuse: r.Intn(4) == 0}
	c.C.T.TMiss = 0
	c.C.MTry = strconv.Itoa(1 + r.Intn(c.C.T.Nums+c.C.T.Cats))
	c.C.LeafSize = strconv.Itoa(1 + r.Intn(4))
	c.C.NSamples = strconv.Itoa(4 + r.Intn(c.C.T.Cases*3/2))
	switch {
	case boost:
		c.Tasks, c.Forest = 1, true
		c.C.boost(r)
		c.C.Kind = ""
		c.C.NSamples = strconv.Itoa(c.C.T.Cases)
		c.C.LeafSize = strconv.Itoa(1 + r.Intn(4))
	case r.Intn(2) == 0:
		c.C.kind(r)
		c.C.Jungle = false
	}
	if c.C.Kind == "density" {
		c.Forest = false
	}
	if c.Forest {
		c.C.Extra, c.Reuse = false, false
	} else if c.C.Kind == "" && r.Intn(8) == 0 {
		c.C.Jungle, c.Reuse = true, false
	}
	if c.C.T.MaxCat > 10 && c.Tasks > 2 { // each split search is long
		c.Tasks, c.C.Trees = 2, 1+c.C.Trees%2
	}
	return c
}

func (c LG) shrinks() []LG {
	var out []LG
	for _, g := range c.C.shrinks() {
		if g.LeafSize == "" || g.NSamples == "" || g.MTry == "" || g.T.Target != c.C.T.Target {
			continue
		}
		d := c
		d.C = g
		out = append(out, d)
	}
	for _, f := range []func(*LG){func(d *LG) { d.Vote = false }, func(d *LG) { d.Count = false }, func(d *LG) { d.Reuse = false }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	if c.Tasks > 1 {
		d := c
		d.Tasks--
		out = append(out, d)
	}
	return out
}

// knownCases counts the cases with a value.
func knownCases(f CF.Feature) (n int) {
	for i := 0; i < f.Length(); i++ {
		if !f.IsMissing(i) {
			n++
		}
	}
	return
}

// makeTarget wraps the target the way growforest does.
func (c *GF) makeTarget(fm *CF.FeatureMatrix) CF.Target {
	t := fm.Data[fm.Map[c.T.target()]]
	pos, costs := c.positive(), c.costs()
	if n, ok := t.(CF.NumFeature); ok {
		switch {
		case c.GBT > 0:
			return CF.NewGradBoostTarget(n, c.GBT)
		case c.Ada:
			return CF.NewNumAdaBoostTarget(n)
		case c.Kind == "l1":
			return &CF.L1Target{NumFeature: n}
		case c.Kind == "ordinal":
			return CF.NewOrdinalTarget(n)
		case c.Kind == "density":
			return &CF.DensityTarget{Features: &fm.Data, N: knownCases(t)}
		}
		return n
	}
	f := t.(CF.CatFeature)
	switch {
	case c.GBT > 0:
		return CF.NewGradBoostClassTarget(f, c.GBT, pos)
	case c.Ada:
		return CF.NewAdaBoostTarget(f)
	}
	switch c.Kind {
	case "entropy":
		return &CF.EntropyTarget{CatFeature: f}
	case "NP":
		return CF.NewNPTarget(f, pos, or(c.NPa, .1), or(c.NPk, 100))
	case "hellinger":
		return CF.NewHDistanceTarget(f, pos)
	case "rfweights":
		return CF.NewWRFTarget(f, costs)
	case "cost":
		t := CF.NewRegretTarget(f)
		t.SetCosts(costs)
		return t
	case "dentropy":
		t := CF.NewDEntropyTarget(f)
		t.SetCosts(costs)
		return t
	case "trans":
		return CF.NewTransTarget(f, &fm.Data, pos, math.Max(0, or(c.TransA, 10)), c.TransB, f.Length())
	case "density":
		return &CF.DensityTarget{Features: &fm.Data, N: knownCases(t)}
	}
	return f
}

// LGRun is what a library run left behind.
type LGRun struct {
	*GFRun
	Forests []*CF.Forest
	FM      *CF.FeatureMatrix
	Data    []byte
}

// runLG grows the forests.
func runLG(x *Ctx, c *LG, tabs bool, prep func(q *GFRun)) *LGRun {
	w := &LGRun{GFRun: &GFRun{C: &c.C, Base: c.C.T.Build(), tabs: tabs}, Forests: make([]*CF.Forest, c.Tasks)}
	if prep != nil {
		prep(w.GFRun)
	}
	w.Data = w.Base.AFM(false, nil, true, false)
	num := func(s string) int { n, _ := strconv.Atoi(s); return n }
	nSamples, mTry, leaf := num(c.C.NSamples), num(c.C.MTry), num(c.C.LeafSize)
	sim.ProbeHook = w.hook
	w.Res = x.Lib(nil, busy, func() {
		fm := CF.ParseAFM(bytes.NewReader(w.Data))
		w.FM = fm
		target := c.C.makeTarget(fm)
		n := len(fm.CaseLabels)
		var imp *[]*CF.RunningMean
		if c.C.Imp {
			imp = CF.NewRunningMeans(len(fm.Data))
		}
		var box CF.VoteTallyer = CF.NewNumBallotBox(n)
		if c.C.T.Target == "cat" {
			box = CF.NewCatBallotBox(n)
		}
		counts, byFeature := new(CF.SparseCounter), new(CF.SparseCounter)
		ti := fm.Map[c.C.T.target()]
		sized := target
		if c.C.Kind == "density" {
			sized = fm.Data[ti].(CF.Target) // density estimation has no target feature to take sizes from
		}
		grow := func(k int) {
			var cands []int
			for i := range fm.Data {
				if i != ti {
					cands = append(cands, i)
				}
			}
			f := &CF.Forest{Target: c.C.T.target()}
			if c.Forest {
				f = CF.GrowRandomForest(fm, target, cands, nSamples, mTry, c.C.Trees, leaf, c.C.MaxDepth, c.C.SplitM, c.C.Force, c.C.Vet, false, imp)
			} else {
				allocs := CF.NewBestSplitAllocs(nSamples, sized)
				tree := CF.NewTree()
				for i := 0; i < c.C.Trees; i++ {
					if !c.Reuse {
						tree = CF.NewTree()
					}
					tree.Target = c.C.T.target()
					g := tree.Grow
					if c.C.Jungle {
						g = tree.GrowJungle
					}
					g(fm, target, CF.SampleWithReplacment(nSamples, n), cands, nil, mTry, leaf, c.C.MaxDepth, c.C.SplitM, c.C.Force, c.C.Vet, false, c.C.Extra, imp, nil, allocs)
					if !c.Reuse || i == 0 {
						f.Trees = append(f.Trees, tree)
					}
				}
			}
			for _, t := range f.Trees {
				if c.Vote && c.C.Kind != "density" {
					t.Vote(fm, box)
				}
				if c.Count {
					for _, l := range t.GetLeaves(fm, byFeature) {
						for i := 0; i < len(l.Cases); i++ {
							for j := i + 1; j < len(l.Cases); j++ {
								counts.Add(l.Cases[i], l.Cases[j], 1)
							}
						}
					}
				}
			}
			w.Forests[k] = f
		}
		if c.Tasks == 1 {
			grow(0)
			return
		}
		var wg sim.WaitGroup
		wg.Add(c.Tasks)
		for k := 0; k < c.Tasks; k++ {
			k := k
			sim.Go(func() {
				defer wg.Done()
				grow(k)
			})
		}
		wg.Wait()
	})
	sim.ProbeHook = nil
	return w
}

// wholeForests checks that every caller got the trees it asked for.
func (w *LGRun) wholeForests(x *Ctx, c *LG) {
	x.MustEnd(w.Res, "growing through the library")
	x.Check(w.NGrow == c.Tasks*c.C.Trees, "grow-count", "%d callers asked for %d trees each, %d were grown", c.Tasks, c.C.Trees, w.NGrow)
	grown := map[*CF.Tree]*Grow{}
	for _, g := range w.Grows() {
		grown[g.Tree] = g
	}
	seen := map[*CF.Tree]bool{}
	name := c.C.T.target()
	for k, f := range w.Forests {
		want := c.C.Trees
		if c.Reuse {
			want = 1
		}
		x.Check(len(f.Trees) == want, "tree-count", "caller %d asked for %d trees and got %d", k, want, len(f.Trees))
		if c.Forest {
			x.Check(f.Target == name, "target", "a forest grown for %s has the target %q", name, f.Target)
		}
		for i, t := range f.Trees {
			x.Check(!seen[t], "tree-twice", "tree %d of caller %d is in a forest twice", i, k)
			seen[t] = true
			x.Check(t.Target == name, "target", "tree %d of a forest grown for %s has the target %q", i, name, t.Target)
			g := grown[t]
			x.Check(g != nil, "foreign-tree", "tree %d of caller %d was not grown by it", i, k)
			if s := snapshot(t).Root.String(); s != g.Snap.Root.String() {
				x.Fail("altered", "tree %d of caller %d was grown as\n  %s\nand is\n  %s", i, k, tail(g.Snap.Root.String(), 600), tail(s, 600))
			}
		}
	}
	x.Count("trees grown through the library", w.NGrow)
}

func runLibWhole(x *Ctx, c *LG) {
	w := runLG(x, c, false, nil)
	w.wholeForests(x, c)
}

// P03: limits and leaves, when the library grows the forest.
func runLibLimits(x *Ctx, c *LG) {
	w := runLG(x, c, true, nil)
	x.MustEnd(w.Res, "growing through the library")
	leaves := c.C.GBT == 0 && !c.C.Ada
	for _, g := range w.Grows() {
		w.checkBag(x, g)
		w.checkTree(x, g, leaves)
	}
}

// P02: what callers grow side by side is what they would grow alone.
func runLibRegrow(x *Ctx, c *LG) {
	r := &regrow{}
	w := runLG(x, c, false, func(q *GFRun) { q.OnGrow = r.onGrow })
	if cl, m := Died(w.Res); cl != "" {
		x.Fail(cl, "%s", m)
	}
	n := 0
	for k, d := range r.diff {
		if d != "" {
			x.Fail("regrow", "%s", d)
		}
		n += r.done[k]
	}
	x.noRaces(w.Res)
	x.Check(n > 0, "no-tree", "no tree was grown")
	x.Count("trees regrown alone", n)
}

// P11: a forest the library grew, saved and read back.
func runLibSaved(x *Ctx, c *LG) {
	w := runLG(x, c, false, nil)
	x.MustEnd(w.Res, "growing through the library")
	f := w.Forests[0]
	want := &SF{Target: f.Target, Intercept: f.Intercept, HasInter: f.Intercept != 0}
	for _, t := range f.Trees {
		want.Trees = append(want.Trees, snapshot(t))
	}
	if want.HasInter {
		want.Forests = 1
	}
	out := sim.NewStream(nil)
	var err error
	res := x.Lib(nil, nil, func() { err = CF.NewForestWriter(out).WriteForest(f) })
	x.MustEnd(res, "writing")
	if err != nil {
		x.Fail("write", "writing fails: %v", err)
	}
	in := sim.NewStream(append([]byte(nil), out.Buf...))
	var got []gotForest
	res = x.Lib(nil, nil, func() { got, err = readAll(in, false, 1000) })
	x.MustEnd(res, "reading")
	if err != io.EOF {
		x.Fail("refused", "reading a healthy stream ends with: %v", err)
	}
	if m := sameForests(got, []*SF{want}); m != "" {
		x.Fail("changed", "%s (the text begins %q)", m, firstLines(string(out.Buf), 3))
	}
	if got[0].Tgt != c.C.T.target() {
		x.Fail("changed", "a forest grown for %s is read back with the target %q", c.C.T.target(), got[0].Tgt)
	}
	// the grown forest votes on its own data and then on others, with the columns in another order; the one read back the other way round
	other := testTable(w.Base, c.C.T.Seed+3).AFM(false, nil, true, false)
	votes := [2][2][]string{}
	res = x.Lib(nil, nil, func() {
		fms := []*CF.FeatureMatrix{CF.ParseAFM(bytes.NewReader(w.Data)), CF.ParseAFM(bytes.NewReader(other))}
		g, e := CF.NewForestReader(bytes.NewReader(out.Buf)).ReadForest()
		if e != nil {
			panic(e)
		}
		for k, ts := range [][]*CF.Tree{f.Trees, g.Trees} {
			for j := range fms {
				d := j ^ k
				for _, t := range ts {
					b := &ballots{map[int][]string{}}
					if d == 1 || j == 1 {
						t.StripCodes() // what has been grown is only for other data without them
					}
					t.Vote(fms[d], b)
					votes[k][d] = append(votes[k][d], fmt.Sprint(b.votes))
				}
			}
		}
	})
	x.MustEnd(res, "voting")
	for d := range votes[0] {
		before, after := votes[0][d], votes[1][d]
		for i := range before {
			if i >= len(after) || before[i] != after[i] {
				x.Fail("votes", "tree %d votes %s, read back %s", i, tail(before[i], 300), tail(fmt.Sprint(after), 300))
			}
		}
	}
	x.Count("grown trees read back", len(f.Trees))
}
