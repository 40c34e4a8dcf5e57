package main

import (
	"math"
	"strconv"

	"cfsim/sim"
)

// impurity is the gini impurity of classes or the sum of squared deviations, with its rounding scale.
func impurity(tf *Feat, cases []int) (imp, scale float64) {
	n := float64(len(cases))
	if n == 0 {
		return 0, 0
	}
	if tf.Num {
		m := mean(tf, cases)
		for _, i := range cases {
			d := tf.Val[i] - m
			imp += d * d
			scale += tf.Val[i] * tf.Val[i]
		}
		return imp, scale
	}
	counts := map[string]int{}
	for _, i := range cases {
		counts[tf.Str[i]]++
	}
	imp = 1
	for _, k := range counts {
		imp -= float64(k) / n * float64(k) / n
	}
	return imp, 1
}

// FeatScore sums up how trees use a feature.
type FeatScore struct {
	Splits   int
	Dec, Tol float64 // summed decrease and its rounding scale
	Trees    int
	Depth    int // summed depth of first use
}

// scores counts the uses of each feature by the given trees.
func (q *GFRun) scores(x *Ctx, gs []*Grow) map[string]*FeatScore {
	out := map[string]*FeatScore{}
	for _, g := range gs {
		first := map[string]int{}
		se := newSearcher(q.C, q.Base, g)
		_, err := g.Snap.Root.levels(g.Tab, g.Bag, func(n *TNode, cases, l, r, m []int, depth int) {
			if !n.Split {
				return
			}
			s := out[n.Feat]
			if s == nil {
				s = &FeatScore{}
				out[n.Feat] = s
			}
			s.Splits++
			if se.can() {
				if q.C.EvalOOB { // it is that over all cases out of the bag whose target is known
					if l, r, m, err := n.route(g.Tab, g.OOB); err == nil {
						inner, d, t := se.gain(l, r, m)
						if se.direct() {
							d = inner
						}
						s.Dec += d
						s.Tol += t
					}
				} else {
					_, d, t := se.gain(l, r, m)
					s.Dec += d
					s.Tol += t
				}
			}
			if v, ok := first[n.Feat]; !ok || depth < v {
				first[n.Feat] = depth
			}
		})
		if err != nil {
			x.Fail("rules", "%v", err)
		}
		for f, d := range first {
			out[f].Trees++
			out[f].Depth += d
		}
	}
	return out
}

func runP05(x *Ctx, c *GF) {
	c.unique()
	c.Imp = true
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	if len(q.Grows()) == 0 {
		x.Fail("no-tree", "no tree was grown")
	}
	sc := q.scores(x, q.Grows())
	b, ok := q.FS.Get("imp.tsv")
	x.Check(ok, "no-file", "there is no importance file")
	rows := tsv(b)
	feats := q.Grows()[0].Tab.Feats
	x.Check(len(rows) == len(feats), "rows", "%d rows in the importance report for %d features", len(rows), len(feats))
	// decreases of penalised splits and some alternative impurities are not recomputed
	plain := !c.Vet && (&searcher{c: c}).can()
	for i, f := range feats {
		row := rows[i]
		if len(row) != 7 || row[0] != f.Name {
			x.Fail("row", "row %d of the importance report is %q, expected feature %s and six numbers", i, row, f.Name)
		}
		v := make([]float64, 7)
		for j := 1; j < 7; j++ {
			var err error
			if v[j], err = strconv.ParseFloat(row[j], 64); err != nil {
				x.Fail("row", "row %d of the importance report is %q", i, row)
			}
		}
		s := sc[f.Name]
		if s == nil {
			s = &FeatScore{}
		}
		if v[2] != float64(s.Splits) {
			x.Fail("count", "%s: %s uses are reported, the %d trees split on it %d times", f.Name, row[2], q.NGrow, s.Splits)
		}
		if plain && s.Splits > 0 && math.Abs(v[1]*float64(s.Splits)-s.Dec) > 1e-9*s.Tol*float64(c.T.Cases)+1e-7*math.Abs(s.Dec) {
			x.Fail("decrease", "%s: a mean decrease of %s is reported, the mean over its %d splits is %v", f.Name, row[1], s.Splits, s.Dec/float64(s.Splits))
		}
		if v[5] != float64(s.Trees) {
			x.Fail("trees", "%s: use by %s trees is reported, %d of the %d trees split on it", f.Name, row[5], s.Trees, q.NGrow)
		}
		depth := 0.0
		if s.Trees > 0 {
			depth = float64(s.Depth) / float64(s.Trees)
		}
		if !near(v[6], depth, 1e-9) {
			x.Fail("depth", "%s: a mean first depth of %s is reported, it is %v", f.Name, row[6], depth)
		}
		if !near(v[3], v[1]*v[2]/float64(c.Trees), 1e-9) || !near(v[4], v[1]*v[2]/v[5], 1e-9) {
			x.Fail("per-tree", "%s: the decrease per tree (%s) or per tree using it (%s) does not fit %s*%s over %d and %s trees", f.Name, row[3], row[4], row[1], row[2], c.Trees, row[5])
		}
		x.Count("splits counted", s.Splits)
		if s.Trees > 0 {
			x.Count("features used", 1)
		} else {
			x.Count("features unused", 1)
		}
	}
}

func init() {
	gen := func(r *sim.RNG) GF {
		c := genGF(r)
		c.OOB = r.Intn(4) == 0
		c.SelfTest = r.Intn(5) == 0
		c.Progress = r.Intn(8) == 0
		return c
	}
	register(&Property{ID: "P05", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.Vet, c.EvalOOB = false, false
			if r.Intn(2) == 0 {
				c.Trees, c.Cores = 4+r.Intn(16), 2+r.Intn(7)
			}
			return c
		}, runP05, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			if r.Intn(2) == 0 {
				c.kind(r)
			}
			return c
		}, runP05, GF.shrinks),
		scen("boost", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.boost(r)
			return c
		}, runP05, GF.shrinks),
		scen("jungle", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.Jungle = true
			c.valid()
			return c
		}, runP05, GF.shrinks),
	}})
}
