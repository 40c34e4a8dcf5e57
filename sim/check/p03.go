package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"
)

// rounds lists the growths of each forest of a run, in the order they began.
func (q *GFRun) rounds() [][]*Grow {
	var out [][]*Grow
	g := q.Grows()
	for len(g) > 0 {
		n := q.C.Trees
		if n > len(g) {
			n = len(g)
		}
		out = append(out, g[:n])
		g = g[n:]
	}
	return out
}

// final is the last forest.
func (q *GFRun) final() []*Grow {
	r := q.rounds()
	if len(r) == 0 {
		return nil
	}
	return r[len(r)-1]
}

// route sends cases through a node's rule.
func (n *TNode) route(t *Table, cases []int) (l, r, m []int, err error) {
	f := t.get(n.Feat)
	if f == nil {
		return nil, nil, nil, fmt.Errorf("a tree splits on %q, which is not in the data", n.Feat)
	}
	if f.Num != n.Num {
		return nil, nil, nil, fmt.Errorf("a split on %q has the wrong type", n.Feat)
	}
	for _, i := range cases {
		switch {
		case f.Miss[i]:
			m = append(m, i)
		case n.Num && f.Val[i] <= n.Val || !n.Num && n.Left[f.Str[i]]:
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	return
}

// walk visits every node with the cases that reach it.
func (n *TNode) walk(t *Table, cases []int, depth int, f func(n *TNode, cases, l, r, m []int, depth int)) error {
	if n == nil {
		return nil
	}
	if !n.Split {
		f(n, cases, nil, nil, nil, depth)
		return nil
	}
	l, r, m, err := n.route(t, cases)
	if err != nil {
		return err
	}
	f(n, cases, l, r, m, depth)
	if err := n.L.walk(t, l, depth+1, f); err != nil {
		return err
	}
	if err := n.R.walk(t, r, depth+1, f); err != nil {
		return err
	}
	return n.M.walk(t, m, depth+1, f)
}

// levels visits every node level by level with all cases that reach it, a node that several branches lead to once.
func (n *TNode) levels(t *Table, cases []int, f func(n *TNode, cases, l, r, m []int, depth int)) (shared int, err error) {
	level, reach := []*TNode{n}, map[*TNode][]int{n: cases}
	for depth := 0; len(level) > 0; depth++ {
		var next []*TNode
		nreach := map[*TNode][]int{}
		add := func(c *TNode, cases []int) {
			if c == nil {
				return
			}
			if _, ok := nreach[c]; ok {
				shared++
			} else {
				next = append(next, c)
			}
			nreach[c] = append(nreach[c], cases...)
		}
		for _, n := range level {
			if !n.Split {
				f(n, reach[n], nil, nil, nil, depth)
				continue
			}
			l, r, m, err := n.route(t, reach[n])
			if err != nil {
				return shared, err
			}
			f(n, reach[n], l, r, m, depth)
			add(n.L, l)
			add(n.R, r)
			add(n.M, m)
		}
		level, reach = next, nreach
	}
	return shared, nil
}

// checkBag checks a bag of cases.
func (q *GFRun) checkBag(x *Ctx, g *Grow) {
	tf := g.Tab.get(q.C.T.target())
	if len(g.Bag) != q.bagSize() {
		x.Fail("bag-size", "a tree was grown from %d cases, %d were asked for", len(g.Bag), q.bagSize())
	}
	seen := map[int]bool{}
	for _, i := range g.Bag {
		if i < 0 || i >= len(tf.Miss) {
			x.Fail("bag-case", "case %d of %d in a bag", i, len(tf.Miss))
		}
		if tf.Miss[i] {
			x.Fail("bag-missing", "case %d is in a bag though its target is not known", i)
		}
		if q.C.NoBag && seen[i] {
			x.Fail("bag-twice", "case %d is twice in the cases of a tree grown without bagging", i)
		}
		seen[i] = true
	}
	// the whole data take part over many draws: with replacement, n draws
	if len(g.OOB) > 0 && (q.C.OOB || q.C.OOBPreds || q.C.Progress || q.C.EvalOOB) {
		for _, i := range g.OOB {
			if seen[i] {
				x.Fail("oob-in-bag", "case %d is both in the bag and out of it", i)
			}
		}
	}
}

// checkCand checks what a tree chooses its splits from.
func (q *GFRun) checkCand(x *Ctx, g *Grow, kept bool) {
	c := q.C
	own := len(g.Tab.Feats) // without the contrasts of ACE
	if c.ACE > 0 {
		own /= 2
	}
	n := 0
	want := map[int]bool{}
	for i, f := range g.Tab.Feats {
		if q.allowed(f.Name) {
			want[i] = true
			if i < own {
				n++
			}
		}
	}
	if kept {
		n = len(g.Cand) // the features kept
		for i := range want {
			delete(want, i)
		}
		for _, i := range g.Cand {
			if i < 0 || i >= own || !q.allowed(g.Tab.Feats[i].Name) {
				x.Fail("candidates", "a tree draws from feature %d, which is excluded: %s", i, g.desc())
			}
			want[i] = true
		}
	}
	seen := map[int]bool{}
	for _, i := range g.Cand {
		if seen[i] {
			x.Fail("candidates", "a tree draws from feature %d twice: %v", i, g.Cand)
		}
		seen[i] = true
		if !want[i] {
			x.Fail("candidates", "a tree draws from feature %d, which is excluded: %v", i, g.Cand)
		}
	}
	if len(seen) != len(want) {
		x.Fail("candidates", "a tree draws from %d features, %d are not excluded", len(seen), len(want))
	}
	k := intOrFrac(c.MTry, n)
	if k <= 0 {
		k = int(math.Ceil(math.Sqrt(float64(n))))
	}
	if g.MTry != k {
		x.Fail("mtry", "a tree is grown with %d candidate features at each split, %d of %d (-mTry %q) were asked for", g.MTry, k, n, c.MTry)
	}
	got := fmt.Sprint("leafSize ", g.Leaf, " maxDepth ", g.Depth, " splitmissing ", g.SplitM, " force ", g.Force, " vet ", g.Vet, " evaloob ", g.Eval, " extra ", g.Extra, " jungle ", g.Jungle)
	asked := fmt.Sprint("leafSize ", q.minLeaf(), " maxDepth ", c.MaxDepth, " splitmissing ", c.SplitM, " force ", c.Force, " vet ", c.Vet, " evaloob ", c.EvalOOB, " extra ", c.Extra, " jungle ", c.Jungle)
	if got != asked {
		x.Fail("settings", "a tree is grown with %s; asked for were %s", got, asked)
	}
	x.Count("candidate lists", 1)
}

func mean(tf *Feat, cases []int) float64 {
	s := 0.0
	for _, i := range cases {
		s += tf.Val[i]
	}
	return s / float64(len(cases))
}

func keys(m map[string]bool) string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return strings.Join(k, " or ")
}

// leafOK compares a leaf's prediction with that of the bag cases that reach it, in the way of the kind of target.
func (c *GF) leafOK(tf *Feat, cases []int, pred string) (want string, ok bool) {
	num := func(want float64) (string, bool) {
		p, err := strconv.ParseFloat(pred, 64)
		return fmt.Sprint(want), err == nil && (near(p, want, 1e-9) || math.IsNaN(p) && math.IsNaN(want))
	}
	share := func(class string, weight func(class string) float64) (string, bool) {
		n, all := 0.0, 0.0
		for _, i := range cases {
			w := weight(tf.Str[i])
			if tf.Str[i] == class {
				n += w
			}
			all += w
		}
		return num(n / all)
	}
	most := func(weight func(class string) float64, none string) (string, bool) {
		n := map[string]float64{}
		best := 0.0
		for _, i := range cases {
			n[tf.Str[i]]++
		}
		for s := range n {
			n[s] *= weight(s)
			best = math.Max(best, n[s])
		}
		m := map[string]bool{}
		for s, k := range n {
			if k > 0 && near(k, best, 1e-12) {
				m[s] = true
			}
		}
		if len(m) == 0 { // only classes without weight
			return none, none == "" || pred == none
		}
		return keys(m), m[pred]
	}
	equal := func(string) float64 { return 1 }
	pos := c.positive()
	switch c.Kind {
	case "ordinal":
		n := map[float64]int{}
		best := 0
		for _, i := range cases {
			v := math.Trunc(tf.Val[i]) // imputed ones need not be integers
			n[v]++
			best = max(best, n[v])
		}
		p, err := strconv.ParseFloat(pred, 64)
		return fmt.Sprintf("a value %d of them have", best), err == nil && n[p] == best
	case "hellinger":
		return share(pos, equal)
	case "dentropy":
		costs := c.costs()
		return share("True", func(s string) float64 { return costs[s] })
	case "NP":
		return most(func(s string) float64 {
			if s == pos {
				return 1 / or(c.NPa, .1)
			}
			return 1
		}, "")
	case "cost", "rfweights":
		costs := c.costs()
		return most(func(s string) float64 { return costs[s] }, "")
	case "trans":
		return most(func(s string) float64 {
			if s == pos {
				return c.TransB
			}
			return 1
		}, pos)
	}
	if tf.Num {
		return num(mean(tf, cases))
	}
	return most(equal, "")
}

// checkTree checks one grown tree against its limits and its bag.
func (q *GFRun) checkTree(x *Ctx, g *Grow, leaves bool) {
	c := q.C
	tf := g.Tab.get(c.T.target())
	min := q.minLeaf()
	shared, err := g.Snap.Root.levels(g.Tab, g.Bag, func(n *TNode, cases, l, r, m []int, depth int) {
		if n.Split {
			x.Count("splits", 1)
			if !q.allowed(n.Feat) {
				x.Fail("feature", "a tree splits on %s, which is excluded: %s", n.Feat, g.desc())
			}
			if c.MaxDepth > 0 && depth >= c.MaxDepth {
				x.Fail("depth", "a split at depth %d, the limit is %d: %s", depth, c.MaxDepth, g.desc())
			}
			if len(l) < min || len(r) < min {
				x.Fail("leaf-size", "a split on %s leaves %d and %d of the %d bag cases on its sides, the minimum is %d: %s", n.Feat, len(l), len(r), len(cases), min, g.desc())
			}
			if n.M != nil && !c.SplitM {
				x.Fail("third-branch", "a branch for missing values that was not asked for: %s", g.desc())
			}
			if n.M == nil && c.SplitM && len(m) > 0 {
				x.Fail("no-third-branch", "bag cases with a missing %s have no branch although one was asked for: %s", n.Feat, g.desc())
			}
			return
		}
		x.Count("leaves", 1)
		if !leaves || len(cases) == 0 {
			return
		}
		if c.Kind == "density" {
			e := density(g.Tab, cases, nil) * float64(len(cases)) / float64(len(tf.Miss)-tf.missing())
			if p, err := strconv.ParseFloat(n.Pred, 64); err != nil || !near(p, e, 1e-9) {
				x.Fail("leaf", "a leaf predicts %q, the density of the %d bag cases that reach it is %v: %s", n.Pred, len(cases), e, g.desc())
			}
			if !math.IsInf(e, 0) {
				x.Count("densities", 1)
			}
			return
		}
		if want, ok := c.leafOK(tf, cases, n.Pred); !ok {
			x.Fail("leaf", "a leaf predicts %q, the %d bag cases that reach it want %s: %s", n.Pred, len(cases), want, g.desc())
		}
	})
	if err != nil {
		x.Fail("rules", "%v: %s", err, g.desc())
	}
	if shared > 0 {
		if !g.Jungle {
			x.Fail("shared", "a node of a tree is the child of several nodes: %s", g.desc())
		}
		x.Count("branches joined in jungles", shared)
	}
}

// checkSaved ties the saved trees to the growths.
func (q *GFRun) checkSaved(x *Ctx) {
	q.load(x)
	if len(q.SF.Trees) != len(q.Writes()) {
		x.Fail("saved", "%d trees are in the file, %d were written", len(q.SF.Trees), len(q.Writes()))
	}
	for i, g := range q.Writes() {
		if s, w := q.SF.Trees[i].Root.String(), g.Snap.Root.String(); s != w {
			x.Fail("saved", "tree %d was grown as\n  %s\nand saved as\n  %s", i, tail(w, 700), tail(s, 700))
		}
	}
}

func runP03(x *Ctx, c *GF) {
	c.unique()
	q := runGF(x, c, true, nil, nil)
	if cl, m := Died(q.Res); cl != "" {
		x.Fail(cl, "%s", m)
	}
	x.MustEnd(q.Res, "growforest")
	q.checkSaved(x)
	leaves := c.GBT == 0 // P19 decides the others
	for r, gs := range q.rounds() {
		for _, g := range gs {
			q.checkBag(x, g)
			q.checkCand(x, g, c.ACE > 0 && c.Cutoff > 0 && r == c.ACE)
			q.checkTree(x, g, leaves)
		}
	}
	x.Count("trees", q.NGrow)
}

func init() {
	register(&Property{ID: "P03", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.OOB = r.Intn(3) == 0
			c.Imp = r.Intn(4) == 0
			c.SelfTest = r.Intn(4) == 0
			if c.T.Target == "cat" && r.Intn(6) == 0 {
				c.Kind = "entropy"
			}
			if r.Intn(5) == 0 {
				c.MTry = "1.0"
				c.LeafSize = ""
				c.MaxDepth = 0
			}
			if r.Intn(6) == 0 && c.T.Target == "cat" && !c.NoBag {
				c.T.Strata, c.BalBy, c.Balance = true, true, false
			}
			return c
		}, runP03, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.kind(r)
			return c
		}, runP03, GF.shrinks),
		scen("boosted", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			tm, imp := c.T.TMiss, c.Impute
			c.boost(r)
			c.T.TMiss, c.Impute = tm, imp
			c.valid()
			return c
		}, runP03, GF.shrinks),
		scen("jungle", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			if r.Intn(2) == 0 {
				c.kind(r)
			}
			c.Jungle = true
			c.valid()
			return c
		}, runP03, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.ACE = 2 + r.Intn(2)
			c.Trees = 1 + r.Intn(5)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			}
			return c
		}, runP03, GF.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) LG { return genLG(r, r.Intn(8) == 0) }, runLibLimits, LG.shrinks),
	}})
}
