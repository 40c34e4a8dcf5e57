package main

import (
	"cfsim/sim"
)

// P01: exactly the requested trees, each whole and each one that was grown.
func checkForest(x *Ctx, q *GFRun) {
	x.MustEnd(q.Res, "growforest")
	q.load(x)
	c := q.C
	x.Check(len(q.SF.Trees) == c.Trees, "tree-count", "%d trees were asked for, %d were saved", c.Trees, len(q.SF.Trees))
	rounds := 1
	if c.ACE > 0 {
		rounds = c.ACE
		if c.Cutoff > 0 {
			rounds++
		}
	}
	x.Check(q.NGrow == c.Trees*rounds, "grow-count", "%d trees were asked for in %d rounds, %d were grown", c.Trees, rounds, q.NGrow)
	left := map[string]int{}
	grown := q.Grows()
	grown = grown[len(grown)-c.Trees:]
	for _, g := range grown {
		left[g.Snap.Root.String()]++
	}
	for i, t := range q.SF.Trees {
		if t.Target != c.T.target() {
			x.Fail("target", "tree %d of the file predicts %q", i, t.Target)
		}
		s := t.Root.String()
		if left[s] == 0 {
			x.Fail("foreign-tree", "tree %d of the file is not one of the trees the run grew (or is there too often): %s", i, tail(s, 800))
		}
		left[s]--
	}
	x.Count("trees", len(q.SF.Trees))
	if c.Trees < c.Cores {
		x.Count("fewer trees than cores", 1)
	}
}

var growReal = []string{"growforest main, feature matrix loading, target set-up, tree growth, split search, ballot boxes, importance, forest writer (instrumented copies of /repo's current sources)"}

func init() {
	register(&Property{ID: "P01", Quick: 20000, Real: growReal, Scenarios: []*Scenario{
		scen("grow", 3, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.OOB = r.Intn(3) == 0
			c.Progress = r.Intn(4) == 0
			c.Imp = r.Intn(3) == 0
			c.SelfTest = r.Intn(4) == 0
			c.Scikit = r.Intn(8) == 0
			return c
		}, func(x *Ctx, c *GF) { checkForest(x, runGF(x, c, false, nil, nil)) }, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.kind(r)
			c.OOB = r.Intn(3) == 0
			return c
		}, func(x *Ctx, c *GF) { checkForest(x, runGF(x, c, false, nil, nil)) }, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.ACE = 2 + r.Intn(3)
			c.Trees = 1 + r.Intn(6)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			}
			return c
		}, func(x *Ctx, c *GF) { checkForest(x, runGF(x, c, false, nil, nil)) }, GF.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) LG { return genLG(r, r.Intn(5) == 0) }, runLibWhole, LG.shrinks),
	}})
}
