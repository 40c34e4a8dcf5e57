package main

import (
	"math"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Ada is an adaptive boosting run.
type Ada struct {
	GF
	Lib bool `json:"lib,omitempty"` // through GrowRandomForest
}

func (c Ada) shrinks() []Ada {
	var out []Ada
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		if d.Kind != c.Kind {
			continue
		}
		out = append(out, d)
	}
	return out
}

// caseWeights finds the weights a target gives to cases.
func caseWeights(t any) []float64 {
	switch t := t.(type) {
	case *CF.AdaBoostTarget:
		return append([]float64(nil), t.Weights...)
	case *CF.AdaCostTarget:
		return append([]float64(nil), t.Weights...)
	case *CF.NumAdaBoostTarget:
		return append([]float64(nil), t.Weights...)
	}
	return nil
}

// adaRound is what was seen of one tree.
type adaRound struct {
	before, after []float64
	snap          *TTree
	tab           *Table
	n             int
}

func runP23(x *Ctx, c *Ada) {
	var rounds []*adaRound
	under := 0
	var target any
	observe := func(a []any) func(t *CF.Tree) {
		r := &adaRound{n: under, tab: fromFM(a[1].(*CF.FeatureMatrix))}
		under++
		if w := caseWeights(a[2]); w != nil {
			target = a[2]
			r.before = w
		}
		rounds = append(rounds, r)
		return func(t *CF.Tree) {
			under--
			r.after = caseWeights(target)
			r.snap = snapshot(t)
		}
	}
	var sf *SF
	if c.Lib {
		tab := c.T.Build()
		st := sim.NewStream(nil)
		sim.ProbeHook = func(name string, a []any) func() {
			if name == "Tree.Grow" {
				end := observe(a)
				return func() { end(a[0].(*CF.Tree)) }
			}
			return nil
		}
		res := x.Lib(nil, nil, func() {
			fm := CF.ParseAFM(sim.NewStream(tab.AFM(false, nil, true, false)))
			ti := fm.Map[c.T.target()]
			var can []int
			for i := range fm.Data {
				if i != ti {
					can = append(can, i)
				}
			}
			var tg CF.Target
			switch {
			case c.T.Target == "num":
				tg = CF.NewNumAdaBoostTarget(fm.Data[ti].(CF.NumFeature))
			case c.Kind == "adacost":
				ac := CF.NewAdaCostTarget(fm.Data[ti].(CF.CatFeature))
				ac.SetCosts(c.costs())
				tg = ac
			default:
				tg = CF.NewAdaBoostTarget(fm.Data[ti].(CF.CatFeature))
			}
			leaf, _ := strconv.Atoi(c.LeafSize)
			mtry, _ := strconv.Atoi(c.MTry)
			f := CF.GrowRandomForest(fm, tg, can, c.T.Cases, mtry, c.Trees, leaf, c.MaxDepth, c.SplitM, c.Force, false, false, nil)
			CF.NewForestWriter(st).WriteForest(f)
		})
		sim.ProbeHook = nil
		x.MustEnd(res, "GrowRandomForest")
		var err error
		if sf, err = parseSF(st.Buf); err != nil {
			x.Fail("malformed", "the saved forest is malformed: %v", err)
		}
	} else {
		q := runGF(x, &c.GF, false, nil, func(q *GFRun) {
			q.OnGrow = func(g *Grow, a []any) func() {
				end := observe(a)
				return func() { end(g.Tree) }
			}
		})
		x.MustEnd(q.Res, "growforest")
		q.Grows()
		q.load(x)
		sf = q.SF
		x.Check(strings.Contains(string(q.Res.Stdout), "Boosting Reached Weight") == (len(sf.Trees) < c.Trees), "stopped",
			"%d of %d trees are saved; the run says that it stopped early: %v", len(sf.Trees), c.Trees, len(sf.Trees) == c.Trees)
	}
	n := len(rounds)
	saved := len(sf.Trees)
	if saved > n || n > c.Trees || n < c.Trees && saved != n-1 || n == c.Trees && saved < n-1 {
		x.Fail("trees", "%d trees were grown and %d saved, %d were asked for", n, saved, c.Trees)
	}
	if target == nil {
		x.Fail("target", "trees are not fitted to weighted cases")
	}
	last := caseWeights(target)
	tf := rounds[0].tab.get(c.T.target())
	nc := len(tf.Miss)
	costs := c.costs()
	cost := func(i int) float64 {
		if c.Kind == "adacost" {
			return costs[tf.Str[i]]
		}
		return 1
	}
	for i, w := range rounds[0].before {
		if !near(w, 1/float64(nc), 1e-12) {
			x.Fail("start", "case %d starts with the weight %v, there are %d cases", i, w, nc)
		}
	}
	for k, r := range rounds {
		if r.n != 0 {
			x.Fail("sequence", "tree %d is fitted while another one is", k)
		}
		for i := range r.after {
			if r.after[i] != r.before[i] && !(math.IsNaN(r.after[i]) && math.IsNaN(r.before[i])) {
				x.Fail("touched", "case %d: the weight changed from %v to %v while tree %d was fitted", i, r.before[i], r.after[i], k)
			}
		}
		next := last
		if k+1 < n {
			next = rounds[k+1].before
		}
		old := r.before
		sum, wild := 0.0, false
		for i := range next {
			if math.IsNaN(next[i]) || math.IsInf(next[i], 0) || math.IsNaN(old[i]) || math.IsInf(old[i], 0) {
				wild = true
			}
			sum += next[i]
		}
		leaves := map[*TNode][]int{}
		var order []*TNode
		for i := 0; i < nc; i++ {
			l, err := r.snap.leaf(r.tab, i)
			if err != nil {
				x.Fail("rules", "%v", err)
			}
			if l == nil || tf.Miss[i] {
				continue
			}
			if leaves[l] == nil {
				order = append(order, l)
			}
			leaves[l] = append(leaves[l], i)
		}
		if k >= saved || math.IsInf(sf.Trees[k].Weight, 1) { // a perfect tree, which ends boosting by the tool
			for i := range old {
				if old[i] != next[i] {
					x.Fail("reweighted", "tree %d makes no mistake, but the weight of case %d changed from %v to %v", k, i, old[i], next[i])
				}
			}
			if c.T.Target == "cat" {
				if lo, _, _ := weighted(tf, order, leaves, old, cost); lo > 0 {
					x.Fail("stopped", "tree %d is taken for perfect, its weighted error is at least %v: %s", k, lo, r.snap)
				}
			}
			if c.T.Target == "num" {
				if total, err, _ := numErr(tf, order, leaves, old); err > 1e-9*total {
					x.Fail("stopped", "tree %d is taken for perfect, its weighted error is %v, the deviation of the target %v: %s", k, err, total, r.snap)
				}
			}
			x.Count("perfect trees", 1)
			continue
		}
		if s, w := sf.Trees[k].Root.String(), r.snap.Root.String(); s != w {
			x.Fail("saved", "tree %d was grown as\n  %s\nand saved as\n  %s", k, tail(w, 700), tail(s, 700))
		}
		weight := sf.Trees[k].Weight
		if wild {
			x.Fail("weights", "after tree %d the cases have the weights %v", k, next)
		}
		if !(math.Abs(sum-1) < 1e-9) && weight != 0 {
			x.Fail("sum", "after tree %d the weights of the cases add up to %v", k, sum)
		}
		if weight < 0 {
			x.Fail("tree-weight", "tree %d is saved without a weight", k)
		}
		if c.T.Target == "num" {
			c.checkNum(x, k, tf, order, leaves, old, next, weight)
		} else {
			c.checkCat(x, k, tf, order, leaves, old, next, weight, cost)
		}
		x.Count("rounds", 1)
	}
}

// checkNum: the weight of a tree is the logarithm of the total distance of the target from its mean over the weighted
// distance from the means of the tree's leaves, and the weights of the cases in them grow exponentially with that
// weight times their own distance, but for normalisation. A tree with no weight changes nothing.
func (c *Ada) checkNum(x *Ctx, k int, tf *Feat, order []*TNode, leaves map[*TNode][]int, old, next []float64, weight float64) {
	total, err, dist := numErr(tf, order, leaves, old)
	if weight == 0 {
		if err < total*(1-1e-9) {
			x.Fail("tree-weight", "tree %d has no weight, its weighted error is %v, the deviation of the target %v", k, err, total)
		}
		for i := range old {
			if !near(old[i], next[i], 1e-9) {
				x.Fail("reweighted", "tree %d has no weight, but the weight of case %d changed from %v to %v", k, i, old[i], next[i])
			}
		}
		return
	}
	want := math.Log(total / err)
	if err > 1e-9*total && math.Abs(weight-want) > 1e-6*(1+want) || err <= 1e-9*total && weight < 10 {
		x.Fail("tree-weight", "tree %d has the weight %v; its weighted error is %v, the deviation of the target %v", k, weight, err, total)
	}
	type gain struct {
		i int
		g float64
	}
	var first *gain
	most := 0.0
	for _, d := range dist {
		most = math.Max(most, d)
	}
	for _, l := range order {
		for _, i := range leaves[l] {
			if !(old[i] > 1e-130 && next[i] > 1e-280) || weight*(most-dist[i]) > 300 { // on the way to underflow
				continue
			}
			g := gain{i, math.Log(next[i]) - math.Log(old[i]) - weight*dist[i]}
			if first == nil {
				first = &g
			}
			if math.Abs(g.g-first.g) > 1e-6*(1+weight*(dist[i]+dist[first.i])) {
				x.Fail("reweighted", "after tree %d with weight %v cases %d and %d, which are %v and %v from the means of their leaves, have their weights multiplied by %v and %v", k, weight, first.i, i, dist[first.i], dist[i], next[first.i]/old[first.i], next[i]/old[i])
			}
		}
	}
}

// numErr is the distance of a target from its mean, the weighted distance from the means of the leaves and that of each
// case.
func numErr(tf *Feat, order []*TNode, leaves map[*TNode][]int, old []float64) (total, err float64, dist []float64) {
	var known []int
	for i := range tf.Miss {
		if !tf.Miss[i] {
			known = append(known, i)
		}
	}
	m := mean(tf, known)
	for _, i := range known {
		total += math.Abs(tf.Val[i] - m)
	}
	dist = make([]float64, len(tf.Miss))
	for _, l := range order {
		m := mean(tf, leaves[l])
		for _, i := range leaves[l] {
			dist[i] = math.Abs(tf.Val[i] - m)
			err += old[i] * dist[i]
		}
	}
	return
}

// weighted is the least and greatest weighted error of a tree's leaves, as leaves with several majorities may count
// either way, and the majorities.
func weighted(tf *Feat, order []*TNode, leaves map[*TNode][]int, old []float64, cost func(int) float64) (lo, hi float64, maj map[*TNode][]string) {
	maj = map[*TNode][]string{}
	for _, l := range order {
		count := map[string]int{}
		best := 0
		for _, i := range leaves[l] {
			count[tf.Str[i]]++
			if count[tf.Str[i]] > best {
				best = count[tf.Str[i]]
			}
		}
		a, b := math.Inf(1), math.Inf(-1)
		for s, n := range count {
			if n < best {
				continue
			}
			maj[l] = append(maj[l], s)
			e := 0.0
			for _, i := range leaves[l] {
				if tf.Str[i] != s {
					e += old[i] * cost(i)
				}
			}
			a, b = math.Min(a, e), math.Max(b, e)
		}
		sort.Strings(maj[l])
		lo += a
		hi += b
	}
	return
}

// checkCat: the weight of a tree follows from its weighted error, and cases outside their leaf's majority gain
// weight by the same factor by which the others lose it.
func (c *Ada) checkCat(x *Ctx, k int, tf *Feat, order []*TNode, leaves map[*TNode][]int, old, next []float64, weight float64, cost func(int) float64) {
	lo, hi, maj := weighted(tf, order, leaves, old, cost)
	if weight == 0 {
		if hi < .5-1e-9 {
			x.Fail("tree-weight", "tree %d has no weight, its weighted error is at most %v", k, hi)
		}
		for i := range old {
			if !near(old[i], next[i], 1e-9) {
				x.Fail("reweighted", "tree %d has no weight, but the weight of case %d changed from %v to %v", k, i, old[i], next[i])
			}
		}
		return
	}
	e := 1 / (1 + math.Exp(2*weight))
	if e < lo*(1-1e-6)-1e-12 || e > hi*(1+1e-6)+1e-12 {
		x.Fail("tree-weight", "tree %d has the weight %v, which goes with a weighted error of %v; it is %v", k, weight, e, lo)
	}
	// relative to a common factor, cases in the majority are multiplied by exp(-weight)*cost, others by exp(weight)*cost
	up, down := math.Exp(weight), math.Exp(-weight)
	total := 0.0
	inLeaf := make([]bool, len(old))
	for _, l := range order {
		for _, i := range leaves[l] {
			inLeaf[i] = true
		}
	}
	sure := true
	want := make([]float64, len(old))
	for i := range old {
		want[i] = old[i]
		total += 0
	}
	for _, l := range order {
		if len(maj[l]) > 1 {
			sure = false
			continue
		}
		for _, i := range leaves[l] {
			if tf.Str[i] == maj[l][0] {
				want[i] *= down * cost(i)
			} else {
				want[i] *= up * cost(i)
			}
		}
	}
	if !sure {
		// find the common factor from the cases whose fate is known, and each tied leaf's majority from that
		f := math.NaN()
		for i := range old {
			if want[i] > 0 && next[i] > 0 && !c.tied(i, order, leaves, maj) {
				f = next[i] / want[i]
				break
			}
		}
		for _, l := range order {
			if len(maj[l]) < 2 {
				continue
			}
			ok := false
			for _, m := range maj[l] {
				fits := true
				for _, i := range leaves[l] {
					w := old[i] * cost(i)
					if tf.Str[i] == m {
						w *= down
					} else {
						w *= up
					}
					if !math.IsNaN(f) && !near(next[i], w*f, 1e-9) {
						fits = false
					}
				}
				ok = ok || fits
			}
			if !ok {
				x.Fail("reweighted", "after tree %d (weight %v) the cases of a leaf changed their weights as no majority among %q explains", k, weight, maj[l])
			}
		}
		for i := range old {
			if !math.IsNaN(f) && !c.tied(i, order, leaves, maj) && !near(next[i], want[i]*f, 1e-9) {
				x.Fail("reweighted", "after tree %d (weight %v) case %d has the weight %v, expected %v", k, weight, i, next[i], want[i]*f)
			}
		}
		return
	}
	total = 0
	for _, w := range want {
		total += w
	}
	for i := range old {
		if !near(next[i], want[i]/total, 1e-9) {
			x.Fail("reweighted", "after tree %d (weight %v) case %d has the weight %v, expected %v", k, weight, i, next[i], want[i]/total)
		}
	}
}

// tied says whether a case is in a leaf with several majorities.
func (c *Ada) tied(i int, order []*TNode, leaves map[*TNode][]int, maj map[*TNode][]string) bool {
	for _, l := range order {
		if len(maj[l]) > 1 {
			for _, j := range leaves[l] {
				if i == j {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register(&Property{ID: "P23", Quick: 20000, Real: growReal, Scenarios: []*Scenario{
		scen("tool", 4, func(r *sim.RNG, tier string) Ada {
			c := Ada{GF: genGF(r)}
			tm, ns := c.T.TMiss, c.NSamples
			c.boost(r)
			c.T.TMiss = tm
			if r.Intn(2) == 0 {
				c.NSamples = ns
			}
			c.GBT, c.Ada = 0, true
			if c.T.Target == "num" {
				c.Kind = ""
			}
			c.Permute = false
			c.Contrast, c.ConAll = 0, false
			c.OOB = r.Intn(4) == 0
			c.Imp = r.Intn(4) == 0
			c.Progress = r.Intn(6) == 0
			c.SelfTest = r.Intn(6) == 0
			c.Trees = 1 + r.Intn(12)
			return c
		}, runP23, Ada.shrinks),
		scen("lib", 1, func(r *sim.RNG, tier string) Ada {
			t := "num"
			if r.Intn(3) > 0 {
				t = "cat"
			}
			c := Ada{GF: GF{T: genTSpec(r, t), Trees: 1 + r.Intn(10), MaxDepth: r.Intn(4), MTry: strconv.Itoa(1 + r.Intn(4)), LeafSize: strconv.Itoa(1 + r.Intn(3)),
				SplitM: r.Intn(3) == 0, Force: r.Intn(4) == 0}, Lib: true}
			c.T.TMiss = 0
			if t == "cat" && r.Intn(3) == 0 {
				c.Kind = "adacost"
			}
			return c
		}, runP23, Ada.shrinks),
	}})
}
