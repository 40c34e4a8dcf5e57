package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	"cfsim/sim"
)

// Splits are searched among those that decrease the impurity by more than this, between values further apart than
// this (documented constants of the library).
const minDecrease = 1e-7

// searcher looks at splits of the cases of nodes.
type searcher struct {
	c      *GF
	tf     *Feat
	tab    *Table
	n      float64 // cases with a known target
	class  []int
	weight []float64 // of the classes
	pos    int       // class that stands out
	cases  []float64 // weights of the cases, in adaptive boosting
	costs  map[string]float64
	counts []float64
	buf    []int
	work   int
	seen   func(inner, d, tol float64, l, r []int) // looks at each split that best tries
}

// newSearcher looks at the target of a tree, whose classes are numbered as they come in the file.
func newSearcher(c *GF, base *Table, g *Grow) *searcher {
	tf := g.Tab.get(c.T.target())
	s := &searcher{c: c, tf: tf, tab: g.Tab, n: float64(len(tf.Miss) - tf.missing()), pos: -1, cases: g.Weights, costs: c.costs()}
	if c.GBT > 0 {
		s.tf = &Feat{Name: tf.Name, Num: true, Val: g.Resid, Miss: tf.Miss}
	}
	if s.tf.Num {
		return s
	}
	ids := map[string]int{}
	s.class = make([]int, len(tf.Str))
	costs := c.costs()
	bf := base.get(tf.Name)
	for i, v := range bf.Str {
		if _, ok := ids[v]; ok || bf.Miss[i] {
			continue
		}
		if v == c.positive() {
			s.pos = len(ids)
		}
		ids[v] = len(ids)
		w := 1.0
		switch c.Kind {
		case "rfweights", "cost", "dentropy":
			w = costs[v]
		}
		s.weight = append(s.weight, w)
	}
	for i, v := range tf.Str {
		s.class[i] = ids[v]
	}
	s.counts = make([]float64, len(ids))
	return s
}

// can tells if the impurity of the kind of target is known here.
func (s *searcher) can() bool {
	switch s.c.Kind {
	case "", "entropy", "l1", "ordinal", "rfweights", "cost", "dentropy", "NP", "hellinger", "adacost", "trans", "density":
		return true
	}
	return false
}

// missing counts the cases without a value.
func (f *Feat) missing() (n int) {
	for _, m := range f.Miss {
		if m {
			n++
		}
	}
	return
}

// span is the range of the values of cases, or the number of their categories.
func (f *Feat) span(cases []int) float64 {
	if !f.Num {
		cats := map[string]bool{}
		for _, i := range cases {
			if !f.Miss[i] {
				cats[f.Str[i]] = true
			}
		}
		return float64(len(cats))
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, i := range cases {
		if !f.Miss[i] {
			lo, hi = math.Min(lo, f.Val[i]), math.Max(hi, f.Val[i])
		}
	}
	return math.Max(hi-lo, 0)
}

// density is one over the product of the spans of all features of cases. Where tf is given, it is left out, and so are
// features without a span.
func density(tab *Table, cases []int, tf *Feat) float64 {
	e := 1.0
	for _, f := range tab.Feats {
		if tf != nil && f.Name == tf.Name {
			continue
		}
		if v := f.span(cases); tf == nil || v > 0 {
			e /= v
		}
	}
	return e
}

// direct tells if splits are scored directly instead of by the decrease of an impurity.
func (s *searcher) direct() bool { return s.c.Kind == "hellinger" || s.c.GBT > 0 }

// imp is the impurity of cases and the scale of its rounding.
func (s *searcher) imp(cases []int) (e, scale float64) {
	n := float64(len(cases))
	s.work += len(cases)
	if n == 0 {
		return 0, 0
	}
	if s.c.Kind == "density" {
		s.work += len(cases) * len(s.tab.Feats)
		e = density(s.tab, cases, nil) * n * n / (s.n * s.n)
		return e, e
	}
	if s.cases != nil { // the weighted error
		if s.tf.Num {
			m := mean(s.tf, cases)
			for _, i := range cases {
				e += s.cases[i] * math.Abs(s.tf.Val[i]-m)
				scale += s.cases[i] * math.Abs(s.tf.Val[i])
			}
			return e, scale
		}
		for k := range s.counts {
			s.counts[k] = 0
		}
		mode := 0
		for _, i := range cases {
			s.counts[s.class[i]]++
		}
		for k, v := range s.counts {
			if v > s.counts[mode] {
				mode = k
			}
		}
		for _, i := range cases {
			if s.class[i] != mode {
				w := s.cases[i]
				if s.c.Kind == "adacost" {
					w *= s.costs[s.tf.Str[i]]
				}
				e += w
			}
		}
		return e, 1
	}
	if s.tf.Num && s.c.Kind == "ordinal" { // mean square distance from the mode, the smallest of them
		counts := map[int]int{}
		m := 0
		for _, i := range cases {
			v := int(s.tf.Val[i])
			counts[v]++
			if counts[v] > counts[m] || counts[v] == counts[m] && v < m {
				m = v
			}
		}
		for _, i := range cases {
			d := s.tf.Val[i] - float64(m)
			e += d * d
			scale += s.tf.Val[i] * s.tf.Val[i]
		}
		return e / n, scale / n
	}
	if s.tf.Num {
		m := mean(s.tf, cases)
		for _, i := range cases {
			d := s.tf.Val[i] - m
			if s.c.Kind == "l1" {
				e += math.Abs(d)
				scale += math.Abs(s.tf.Val[i])
			} else {
				e += d * d
				scale += s.tf.Val[i] * s.tf.Val[i]
			}
		}
		if s.c.Kind == "l1" {
			return e / n, scale / n
		}
		return e, scale
	}
	for k := range s.counts {
		s.counts[k] = 0
	}
	for _, i := range cases {
		s.counts[s.class[i]]++
	}
	switch s.c.Kind {
	case "entropy", "dentropy":
		for k, v := range s.counts {
			if v > 0 {
				e -= s.weight[k] * v / n * math.Log(v/n)
			}
		}
		return e, 1
	case "cost": // of misclassified cases, halved
		most := 0.0
		for k, v := range s.counts {
			e += v * s.weight[k]
			most = math.Max(most, v*s.weight[k])
		}
		return (e - most) / (2 * n), 1
	}
	if s.c.Kind == "NP" { // a false positive rate beyond the limit costs, otherwise it is the false negative rate
		alpha, kappa, most, mode, pos := or(s.c.NPa, .1), or(s.c.NPk, 100), 0.0, 0, 0.0
		for k, v := range s.counts {
			if k == s.pos {
				pos = v
				v /= alpha
			}
			if v > most {
				most, mode = v, k
			}
		}
		if mode == s.pos {
			return kappa * math.Max((n-pos)/n-alpha, 0), 1
		}
		return pos / n, 1
	}
	all := 0.0
	for k, v := range s.counts {
		all += v * s.weight[k]
		e += v * s.weight[k] * v * s.weight[k]
	}
	e, scale = 1-e/(all*all), 1
	if s.c.Kind == "trans" && s.c.TransA >= 0 { // plus the volume the cases spread over
		s.work += len(cases) * len(s.tab.Feats)
		v := or(s.c.TransA, 10) / density(s.tab, cases, s.tf) / (n * n)
		e, scale = e+v, scale+v
	}
	return e, scale
}

// parts adds up the impurities of the parts of cases.
func (s *searcher) parts(parts ...[]int) (e, scale float64) {
	n := 0.0
	for _, p := range parts {
		if len(p) == 0 {
			continue
		}
		i, t := s.imp(p)
		e += i * float64(len(p))
		scale += t * float64(len(p))
		n += float64(len(p))
	}
	return e / n, scale / n
}

// gain is the decrease of the impurity by a split of cases, without and with the cases whose value isn't known.
func (s *searcher) gain(l, r, m []int) (inner, dec, scale float64) {
	if s.c.GBT > 0 { // Friedman's improvement
		a, b := mean(s.tf, l), mean(s.tf, r)
		nl, nr := float64(len(l)), float64(len(r))
		s.work += len(l) + len(r)
		inner = (a - b) * (a - b) * nl * nr / (nl + nr)
		for _, i := range l {
			scale += s.tf.Val[i] * s.tf.Val[i]
		}
		for _, i := range r {
			scale += s.tf.Val[i] * s.tf.Val[i]
		}
		return inner, inner * (nl + nr) / (nl + nr + float64(len(m))), scale
	}
	if s.c.Kind == "hellinger" { // the distance between the distributions of the first two classes over the sides
		var n [2][2]float64
		s.work += len(l) + len(r)
		for side, part := range [][]int{l, r} {
			for _, i := range part {
				if s.class[i] < 2 {
					n[side][s.class[i]]++
				}
			}
		}
		for side := range n {
			d := n[side][0]/(n[0][0]+n[1][0]) - n[side][1]/(n[0][1]+n[1][1])
			inner += d * d
		}
		return inner, inner * float64(len(l)+len(r)) / float64(len(l)+len(r)+len(m)), 1
	}
	known := append(append(s.buf[:0], l...), r...)
	p, t0 := s.imp(known)
	e, t1 := s.parts(l, r)
	inner, scale = p-e, t0+t1
	if len(m) == 0 {
		return inner, inner, scale
	}
	s.buf = append(known, m...)
	p, t0 = s.imp(s.buf)
	e, t1 = s.parts(l, r, m)
	return inner, p - e, scale + t0 + t1
}

// best is the greatest decrease of the splits of the cases on f that leave min cases on both sides, with its
// rounding scale and what the split is. Features with more categories than are tried in all combinations are only
// tried with single categories on one side.
func (s *searcher) best(f *Feat, cases []int, min int) (dec, tol float64, what string) {
	var known, missing []int
	for _, i := range cases {
		if f.Miss[i] {
			missing = append(missing, i)
		} else {
			known = append(known, i)
		}
	}
	if len(known) < 2*min {
		return
	}
	try := func(l, r []int, desc func() string) {
		if len(l) < min || len(r) < min {
			return
		}
		inner, d, t := s.gain(l, r, missing)
		if s.seen != nil {
			s.seen(inner, d, s.slack(t), l, r)
		}
		if t = s.slack(t); inner > minDecrease+t && d > dec { // it must help the cases that are split
			dec, tol, what = d, t, desc()
		}
	}
	if f.Num {
		k := append([]int(nil), known...)
		sort.SliceStable(k, func(a, b int) bool { return f.Val[k[a]] < f.Val[k[b]] })
		for i := min; i <= len(k)-min && i < len(k); i++ {
			if i > 0 && f.Val[k[i]] > f.Val[k[i-1]]+minDecrease*(1+1e-6) {
				try(k[:i], k[i:], func() string { return fmt.Sprintf("%s<=%v", f.Name, f.Val[k[i-1]]) })
			}
		}
		return
	}
	cats := f.cats()
	half := func(in func(string) bool, desc func() string) {
		var l, r []int
		for _, i := range known {
			if in(f.Str[i]) {
				l = append(l, i)
			} else {
				r = append(r, i)
			}
		}
		try(l, r, desc)
	}
	if len(cats) > 5 {
		for _, c := range cats {
			half(func(v string) bool { return v == c }, func() string { return fmt.Sprintf("%s in {%s}", f.Name, c) })
		}
		return
	}
	id := map[string]int{}
	for i, c := range cats {
		id[c] = i
	}
	for set := 1; set < 1<<uint(len(cats))/2; set++ {
		half(func(v string) bool { return set>>uint(id[v])&1 != 0 }, func() string { return fmt.Sprintf("%s in subset %b of %q", f.Name, set, cats) })
	}
	return
}

// helps tells if the best splits of the cases on f all decrease the impurity by more than least in and out of the bag,
// which is enough to be preferred to nothing or to a split that decreases it by least out of the bag.
func (s *searcher) helps(f *Feat, cases, oob []int, min int, least float64) bool {
	best, tol, _ := s.best(f, cases, min)
	if best <= least+tol || !f.Num && len(f.cats()) > 5 { // better ones may have been found

		return false
	}
	known := map[string]bool{}
	var vals []float64
	for _, i := range cases {
		if !f.Miss[i] {
			if f.Num {
				vals = append(vals, f.Val[i])
			} else {
				known[f.Str[i]] = true
			}
		}
	}
	sort.Float64s(vals)
	for i := 1; i < len(vals); i++ {
		if vals[i] > vals[i-1] && vals[i] <= vals[i-1]+minDecrease*(1+1e-6) { // other splits may be tried
			return false
		}
	}
	for _, i := range oob {
		if !f.Miss[i] && !f.Num && !known[f.Str[i]] {
			return false // it could go to either side
		}
	}
	ok := true
	var found [][2][]int
	s.seen = func(inner, d, t float64, l, r []int) {
		if d >= best-tol-t || inner > d && inner >= best-tol-t {
			found = append(found, [2][]int{copyInts(l), copyInts(r)})
		}
	}
	s.best(f, cases, min)
	s.seen = nil
	for _, p := range found {
		var l, r, m []int
		if f.Num {
			lo, hi := math.Inf(-1), math.Inf(1)
			for _, i := range p[0] {
				lo = math.Max(lo, f.Val[i])
			}
			for _, i := range p[1] {
				hi = math.Min(hi, f.Val[i])
			}
			for _, i := range oob {
				switch {
				case f.Miss[i]:
					m = append(m, i)
				case f.Val[i] <= lo:
					l = append(l, i)
				case f.Val[i] >= hi:
					r = append(r, i)
				default:
					return false
				}
			}
		} else {
			left := map[string]bool{}
			for _, i := range p[0] {
				left[f.Str[i]] = true
			}
			for _, i := range oob {
				switch {
				case f.Miss[i]:
					m = append(m, i)
				case left[f.Str[i]]:
					l = append(l, i)
				default:
					r = append(r, i)
				}
			}
		}
		inner, d, t := s.gain(l, r, m)
		if s.direct() {
			d = inner
		}
		if len(l) == 0 || len(r) == 0 || !(d > least+s.slack(t)) { // a side without cases has no impurity
			ok = false
		}
	}
	return ok && len(found) > 0
}

func (s *searcher) slack(scale float64) float64 { return 1e-9*scale*float64(len(s.tf.Miss)) + 1e-11 }

// cats lists the known categories of a feature.
func (f *Feat) cats() []string {
	seen := map[string]bool{}
	var out []string
	for i, v := range f.Str {
		if !f.Miss[i] && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	sort.Strings(out)
	return out
}

// checkSplits checks that the splits of a tree are the best of their feature and, where all features were tried, of
// all features, and that nodes without a split have none that helps.
func (q *GFRun) checkSplits(x *Ctx, g *Grow, s *searcher) {
	c := q.C
	tf := g.Tab.get(c.T.target())
	min := q.minLeaf()
	all := g.MTry >= len(g.Cand) && !c.Vet && !c.EvalOOB
	_, err := g.Snap.Root.levels(g.Tab, g.Bag, func(n *TNode, cases, l, r, m []int, depth int) {
		if s.work > 40e6 {
			return
		}
		own, ownTol, least := 0.0, 0.0, minDecrease
		if n.Split {
			_, own, ownTol = s.gain(l, r, m)
			if ownTol = s.slack(ownTol); math.IsNaN(own) || math.IsInf(own, 0) {
				return
			}
			f := g.Tab.get(n.Feat)
			if !(c.Extra && f.Num) {
				dec, tol, what := s.best(f, cases, min)
				if dec > own+tol+ownTol {
					x.Fail("not-best", "a node with %d bag cases splits on %s, decreasing the impurity by %v; %s decreases it by %v: %s", len(cases), n.Feat, own, what, dec, g.desc())
				}
				x.Count("splits searched", 1)
			}
			if cats := f.cats(); !f.Num && len(cats) > 5 { // combined as long as another category helps
				inner, _, t := s.gain(l, r, m)
				left := map[string]bool{}
				for _, i := range l {
					left[f.Str[i]] = true
				}
				for _, cat := range cats {
					if left[cat] {
						continue
					}
					l2 := copyInts(l)
					var r2 []int
					for _, i := range r {
						if f.Str[i] == cat {
							l2 = append(l2, i)
						} else {
							r2 = append(r2, i)
						}
					}
					if len(r2) == len(r) || len(r2) < min {
						continue
					}
					if more, _, t2 := s.gain(l2, r2, m); more > inner+s.slack(t)+s.slack(t2) {
						x.Fail("not-best", "a node with %d bag cases splits on %s, decreasing the impurity by %v; with category %q on the left too it decreases it by %v: %s", len(cases), n.Feat, inner, cat, more, g.desc())
					}
				}
				x.Count("combinations of categories searched", 1)
			}
			if own < minDecrease-ownTol && !c.Vet && !c.EvalOOB {
				x.Fail("no-gain", "a split on %s of %d bag cases decreases the impurity by %v: %s", n.Feat, len(cases), own, g.desc())
			}
			if c.EvalOOB && !c.Vet {
				if l, r, m, err := n.route(g.Tab, g.OOB); err == nil {
					inner, d, t := s.gain(l, r, m)
					if s.direct() {
						d = inner
					}
					if !(d > minDecrease-s.slack(t)) {
						x.Fail("no-gain", "a split on %s of %d bag cases changes the impurity out of the bag by %v: %s", n.Feat, len(cases), d, g.desc())
					}
					least = d + s.slack(t)
					x.Count("splits evaluated out of the bag", 1)
				}
			}
		} else {
			if len(cases) < 2*min || len(cases) == 0 || c.MaxDepth > 0 && depth >= c.MaxDepth {
				x.Count("leaves at their limits", 1)
				return
			}
			if p, _ := s.imp(cases); !(s.c.Kind == "hellinger") && (math.IsNaN(p) || p <= minDecrease) {
				x.Count("leaves of equals", 1)
				return
			}
		}
		if c.EvalOOB && !c.Vet && g.MTry >= len(g.Cand) && !c.Extra {
			for _, i := range g.Cand {
				f := g.Tab.Feats[i]
				if f.Name == tf.Name || n.Split && f.Name == n.Feat || !s.helps(f, cases, g.OOB, min, least) {
					continue
				}
				if n.Split {
					x.Fail("not-best", "a node with %d bag cases at depth %d is split on %s; a split on %s helps more in and out of the bag: %s", len(cases), depth, n.Feat, f.Name, g.desc())
				}
				x.Fail("not-split", "a node with %d bag cases at depth %d isn't split; a split on %s helps in and out of the bag: %s", len(cases), depth, f.Name, g.desc())
			}
			x.Count("nodes searched out of the bag", 1)
		}
		if !all {
			return
		}
		for _, i := range g.Cand {
			f := g.Tab.Feats[i]
			if f.Name == tf.Name || c.Extra && f.Num {
				continue
			}
			dec, tol, what := s.best(f, cases, min)
			if dec <= minDecrease+tol {
				continue
			}
			if !n.Split {
				x.Fail("not-split", "a node with %d bag cases at depth %d isn't split; %s decreases the impurity by %v: %s", len(cases), depth, what, dec, g.desc())
			}
			if dec > own+tol+ownTol {
				x.Fail("not-best", "a node with %d bag cases splits on %s, decreasing the impurity by %v; with all features tried, %s decreases it by %v: %s", len(cases), n.Feat, own, what, dec, g.desc())
			}
		}
		x.Count("nodes with all features tried", 1)
	})
	if err != nil {
		x.Fail("rules", "%v: %s", err, g.desc())
	}
}

func runP27(x *Ctx, c *GF) {
	c.unique()
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	for _, g := range q.Grows() {
		s := newSearcher(c, q.Base, g)
		if !s.can() {
			x.Fail("kind", "no impurity for %q", c.Kind)
		}
		q.checkSplits(x, g, s)
	}
	x.Count("trees", q.NGrow)
}

func init() {
	gen := func(r *sim.RNG) GF {
		c := genGF(r)
		if r.Intn(3) > 0 {
			c.MTry = []string{"1.0", "1000"}[r.Intn(2)]
			c.Vet, c.EvalOOB = false, r.Intn(6) == 0
		}
		if r.Intn(2) == 0 {
			c.LeafSize = []string{"", "1", "2", "3"}[r.Intn(4)]
			c.MaxDepth = 0
		}
		c.OOB = r.Intn(4) == 0
		return c
	}
	register(&Property{ID: "P27", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) GF { return gen(r) }, runP27, GF.shrinks),
		scen("kinds", 2, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			if c.T.Target == "num" {
				c.Kind = []string{"l1", "ordinal", "density"}[r.Intn(3)]
				c.T.IntTgt = c.Kind == "ordinal"
			}
			if r.Intn(4) == 0 {
				c.EvalOOB, c.NoBag = true, false
			}
			for s := (&searcher{c: &c}); c.Kind == "" || !s.can(); {
				c.Costs, c.NPa, c.NPk, c.TransA, c.TransB = nil, 0, 0, 0, 0
				c.kind(r)
			}
			c.valid()
			return c
		}, runP27, GF.shrinks),
		scen("boost", 2, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			tm := c.T.TMiss
			c.boost(r)
			c.T.TMiss = tm
			if r.Intn(2) == 0 {
				c.GBT, c.Ada = 0, true
				if c.T.Target == "num" {
					c.Kind = ""
				}
				c.Permute = false
			}
			c.valid()
			return c
		}, runP27, GF.shrinks),
		scen("ordered", 1, func(r *sim.RNG, tier string) GF { // all cases in order, with values in hard orders
			c := gen(r)
			c.NoBag, c.NSamples, c.Balance, c.EvalOOB = true, "", false, false
			c.T.Nums, c.T.Miss, c.T.TMiss, c.T.Far, c.T.Deep = 1+r.Intn(2), 0, 0, false, false
			c.T.Order, c.T.Cases = 1+r.Intn(10), 30+r.Intn(300)
			c.MaxDepth = 1 + r.Intn(4)
			c.Trees, c.MTry = 1+r.Intn(3), "1.0"
			c.valid()
			return c
		}, runP27, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.ACE, c.Trees = 2, 1+r.Intn(3)
			return c
		}, runP27, GF.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) LG {
			c := genLG(r, false)
			if r.Intn(2) == 0 {
				c.C.MTry, c.C.Vet, c.C.EvalOOB = strconv.Itoa(c.C.T.Nums+c.C.T.Cats+r.Intn(3)), false, false
			}
			return c
		}, func(x *Ctx, c *LG) {
			w := runLG(x, c, true, nil)
			x.MustEnd(w.Res, "growing through the library")
			for _, g := range w.Grows() {
				if s := newSearcher(w.C, w.Base, g); s.can() {
					w.checkSplits(x, g, s)
				}
			}
		}, LG.shrinks),
		scen("jungle", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			switch r.Intn(3) {
			case 0:
				c.kind(r)
			case 1:
				tm := c.T.TMiss
				c.boost(r)
				c.T.TMiss = tm
			}
			c.Jungle = true
			c.valid()
			return c
		}, runP27, GF.shrinks),
	}})
}
