package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// fair fails when counts of independent draws are far from what probabilities p give (beyond any chance).
func (x *Ctx) fair(what string, counts []int, p []float64, draws int, name func(i int) string) {
	chi, df := 0.0, 0
	for i, k := range counts {
		e := p[i] * float64(draws)
		if p[i] == 0 {
			if k > 0 {
				x.Fail("unfair", "%s: %s came %d times in %d draws, it must not come", what, name(i), k, draws)
			}
			continue
		}
		sd := math.Sqrt(e * (1 - p[i]))
		if math.Abs(float64(k)-e) > 7*sd+3 {
			x.Fail("unfair", "%s: %s came %d times in %d draws, expected about %.0f (standard deviation %.1f)", what, name(i), k, draws, e, sd)
		}
		if e >= 20 {
			chi += (float64(k) - e) * (float64(k) - e) / e
			df++
		}
	}
	if df > 1 && chi > float64(df)+8*math.Sqrt(2*float64(df))+40 {
		x.Fail("unfair", "%s: the counts %v of %d draws do not fit their probabilities (chi square %.0f with %d classes)", what, counts, draws, chi, df)
	}
	x.Count("fairness tests", 1)
}

// Samp exercises one of the samplers.
type Samp struct {
	Kind  string `json:"kind"` // balanced, secondary, first, replace
	N     int    `json:"n"`    // cases, or length of the deck
	Cats  int    `json:"cats"`
	Strat int    `json:"strat,omitempty"`
	Miss  int    `json:"miss"` // percent
	Skew  bool   `json:"skew"`
	Draw  int    `json:"draw"` // size of a sample
	Reps  int    `json:"reps"`
	Const int    `json:"const,omitempty"`
	Tasks int    `json:"tasks,omitempty"`
	Seed  uint64 `json:"seed"`
	NilS  bool   `json:"nil,omitempty"`
}

func genSamp(r *sim.RNG) Samp {
	c := Samp{Kind: []string{"balanced", "secondary", "first", "replace"}[r.Intn(4)], N: 1 + r.Intn(40), Cats: 1 + r.Intn(5), Strat: 1 + r.Intn(4), Seed: r.Next() % 1000000}
	if r.Intn(2) == 0 {
		c.Miss = 5 + r.Intn(60)
	}
	c.Skew = r.Intn(2) == 0
	c.Draw = 1 + r.Intn(2*c.N)
	c.Reps = 1 + r.Intn(30)
	if r.Intn(4) == 0 {
		c.Reps = 300 + r.Intn(1500)
	}
	if c.Kind == "first" {
		c.Draw = r.Intn(c.N + 4)
		switch r.Intn(3) {
		case 0:
			c.Const = r.Intn(c.N + 1)
		}
		c.NilS = r.Intn(6) == 0
	}
	if r.Intn(5) == 0 {
		c.Tasks = 2 + r.Intn(4)
		if c.Reps > 100 {
			c.Reps = 100
		}
	}
	return c
}

func (c Samp) shrinks() []Samp {
	var out []Samp
	try := func(f func(*Samp)) { d := c; f(&d); out = append(out, d) }
	if c.N > 1 {
		try(func(d *Samp) { d.N = d.N / 2; d.Const = 0 })
		try(func(d *Samp) { d.N--; d.Const = 0 })
	}
	if c.Draw > 1 {
		try(func(d *Samp) { d.Draw /= 2 })
		try(func(d *Samp) { d.Draw-- })
	}
	if c.Reps > 1 {
		try(func(d *Samp) { d.Reps /= 2 })
		try(func(d *Samp) { d.Reps-- })
	}
	try(func(d *Samp) { d.Miss = 0 })
	try(func(d *Samp) { d.Skew = false })
	try(func(d *Samp) { d.Tasks = 0 })
	if c.Strat > 1 {
		try(func(d *Samp) { d.Strat-- })
	}
	if c.Cats > 1 {
		try(func(d *Samp) { d.Cats-- })
	}
	return out
}

// classes draws a class (-1: unknown) for each case; some classes may stay without cases.
func (c *Samp) classes(r *sim.RNG, n int) []int {
	out := make([]int, c.N)
	for i := range out {
		out[i] = r.Intn(n)
		if c.Skew && r.Intn(4) > 0 {
			out[i] = 0
		}
		if r.Intn(100) < c.Miss {
			out[i] = -1
		}
	}
	return out
}

// catFeature loads a categorical feature; unused categories are made known first.
func catFeature(name string, class []int, n int) *CF.DenseCatFeature {
	f := &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: make(map[string]int)}, Name: name}
	for k := 0; k < n; k++ {
		f.CatToNum(fmt.Sprintf("c%d", k))
	}
	for _, k := range class {
		if k < 0 {
			f.Append("NA")
		} else {
			f.Append(fmt.Sprintf("c%d", k))
		}
	}
	return f
}

// sampled is what one task drew.
type sampled struct {
	out  [][]int
	deck [][]int
}

func runP18(x *Ctx, c *Samp) {
	r := &sim.RNG{S: sim.Mix(c.Seed, 5)}
	target, strat := c.classes(r, c.Cats), c.classes(r, c.Strat)
	p := make([]float64, c.N)
	bag := func() int {
		n := 0
		by := map[[2]int]int{}
		kinds := map[int]map[int]bool{}
		per := map[int]int{}
		for i, k := range target {
			if k < 0 || c.Kind == "secondary" && strat[i] < 0 {
				continue
			}
			s := 0
			if c.Kind == "secondary" {
				s = strat[i]
			}
			n++
			by[[2]int{s, k}]++
			per[s]++
			if kinds[s] == nil {
				kinds[s] = map[int]bool{}
			}
			kinds[s][k] = true
		}
		for i, k := range target {
			if k < 0 || c.Kind == "secondary" && strat[i] < 0 {
				continue
			}
			s := 0
			if c.Kind == "secondary" {
				s = strat[i]
			}
			p[i] = float64(per[s]) / float64(n) / float64(len(kinds[s])) / float64(by[[2]int{s, k}])
		}
		return n
	}
	switch c.Kind {
	case "balanced", "secondary":
		if bag() == 0 {
			return // nothing can be sampled
		}
	case "replace":
		for i := range p {
			p[i] = 1 / float64(c.N)
		}
	}
	tasks := c.Tasks
	if tasks == 0 {
		tasks = 1
	}
	got := make([]*sampled, tasks)
	alone := make([]*sampled, tasks)
	var opts sim.Options
	res := x.Lib(nil, func(o *sim.Options) {
		if c.Tasks > 1 {
			busy(o)
		}
		if c.Reps > 200 {
			o.RandMode = 0
		}
	}, func() {
		var s CF.Bagger
		tf := catFeature("C:t", target, c.Cats)
		switch c.Kind {
		case "balanced":
			s = CF.NewBalancedSampler(tf)
		case "secondary":
			s = CF.NewSecondaryBalancedSampler(tf, catFeature("C:s", strat, c.Strat))
		}
		work := func(sl *sampled) {
			var buf []int
			deck := make([]int, c.N)
			for i := range deck {
				deck[i] = i * 3
			}
			for k := 0; k < c.Reps; k++ {
				n := c.Draw
				switch c.Kind {
				case "replace":
					buf = CF.SampleWithReplacment(n, c.N)
				case "first":
					if c.NilS {
						CF.SampleFirstN(&deck, nil, n, c.Const)
						m := n
						if m > c.N-c.Const {
							m = c.N - c.Const
						}
						buf = deck[:m]
					} else {
						CF.SampleFirstN(&deck, &buf, n, c.Const)
					}
					sl.deck = append(sl.deck, copyInts(deck))
				default:
					s.Sample(&buf, n)
				}
				sl.out = append(sl.out, copyInts(buf))
			}
		}
		if c.Tasks > 1 {
			var wg sim.WaitGroup
			wg.Add(tasks)
			for k := 0; k < tasks; k++ {
				k := k
				got[k], alone[k] = &sampled{}, &sampled{}
				sim.Go(func() {
					mark := sim.RandMark()
					work(got[k])
					after := sim.RandMark()
					sim.RandReset(mark)
					sim.Atomic(func() { work(alone[k]) })
					sim.RandReset(after)
					wg.Done()
				})
			}
			wg.Wait()
		} else {
			got[0] = &sampled{}
			work(got[0])
		}
	})
	opts = x.execs[0]
	x.MustEnd(res, "sampling")
	counts := make([]int, c.N)
	front := make([]int, c.N)
	draws := 0
	for k, g := range got {
		if c.Tasks > 1 {
			for i := range g.out {
				if fmt.Sprint(g.out[i]) != fmt.Sprint(alone[k].out[i]) {
					x.Fail("shared", "task %d sharing the sampler draws %v, alone it draws %v from the same random numbers", k, g.out[i], alone[k].out[i])
				}
			}
		}
		if len(g.out) != c.Reps {
			x.Fail("lost", "%d of %d samples", len(g.out), c.Reps)
		}
		prev := make([]int, c.N)
		for i := range prev {
			prev[i] = i * 3
		}
		for j, s := range g.out {
			x.Count("samples", 1)
			if c.Kind == "first" {
				x.firstN(c, s, g.deck[j], prev)
				prev = g.deck[j]
				for _, v := range s {
					counts[v/3]++
				}
				if len(s) > 0 {
					front[s[0]/3]++
				}
				draws++
				continue
			}
			if len(s) != c.Draw {
				x.Fail("size", "a %s sample has %d cases, %d were asked for", c.Kind, len(s), c.Draw)
			}
			for _, i := range s {
				if i < 0 || i >= c.N {
					x.Fail("range", "a %s sample holds case %d of %d", c.Kind, i, c.N)
				}
				if p[i] == 0 {
					x.Fail("unknown", "a %s sample holds case %d, whose class or stratum is not known", c.Kind, i)
				}
				counts[i]++
			}
			draws += len(s)
		}
	}
	if opts.RandMode != 0 || c.Reps <= 200 {
		return
	}
	name := func(i int) string { return fmt.Sprintf("case %d", i) }
	if c.Kind == "first" {
		k := c.Draw
		if k > c.N-c.Const {
			k = c.N - c.Const
		}
		if c.NilS && c.Const > 0 {
			return // which of the front cards were drawn isn't known
		}
		if k > 0 {
			for i := range p {
				p[i] = float64(k) / float64(c.N)
			}
			if c.Const > 0 { // the constants keep their places at the end
				for i := c.N - c.Const; i < c.N; i++ {
					p[i] = 0
				}
			}
			x.fair("cards drawn", counts, p, draws, name)
			if c.Const == 0 {
				for i := range p {
					p[i] = 1 / float64(c.N)
				}
				x.fair("first card drawn", front, p, draws, name)
			}
		}
		return
	}
	x.fair(c.Kind+" sample", counts, p, draws, name)
}

// firstN checks one draw of the first cards of a deck.
func (x *Ctx) firstN(c *Samp, s, deck, prev []int) {
	sorted := copyInts(deck)
	sort.Ints(sorted)
	for i, v := range sorted {
		if v != i*3 {
			x.Fail("deck", "the deck is no permutation of itself: %v", deck)
		}
	}
	for i := c.N - c.Const; i < c.N; i++ {
		if deck[i] != prev[i] {
			x.Fail("constants", "the %d known constants were moved: %v became %v", c.Const, prev, deck)
		}
	}
	want := c.Draw
	if want > c.N-c.Const {
		want = c.N - c.Const
	}
	if len(s) > want || c.Const == 0 && len(s) != want {
		x.Fail("size", "%d cards were drawn from %d (%d constants), %d were asked for", len(s), c.N, c.Const, c.Draw)
	}
	seen := map[int]bool{}
	for i, v := range s {
		if seen[v] {
			x.Fail("twice", "card %d was drawn twice: %v", v, s)
		}
		seen[v] = true
		if v != deck[i] {
			x.Fail("front", "the cards drawn %v are not the first of the deck %v", s, deck)
		}
		if v/3 >= c.N-c.Const && c.Const > 0 {
			x.Fail("constants", "the known constant %d was drawn: %v", v, s)
		}
	}
}

// Cand exercises the choice of candidate features at splits.
type Cand struct {
	Feats int    `json:"feats"`
	MTry  int    `json:"mtry"`
	Known int    `json:"known"` // constants known before
	New   int    `json:"new"`   // constants found by looking
	Force bool   `json:"force"`
	Reps  int    `json:"reps"`
	Seed  uint64 `json:"seed"`
}

func (c Cand) shrinks() []Cand {
	var out []Cand
	try := func(f func(*Cand)) { d := c; f(&d); out = append(out, d) }
	if c.Feats > c.Known+c.New+1 {
		try(func(d *Cand) { d.Feats-- })
	}
	if c.Known > 0 {
		try(func(d *Cand) { d.Known-- })
	}
	if c.New > 0 {
		try(func(d *Cand) { d.New-- })
	}
	if c.MTry > 1 {
		try(func(d *Cand) { d.MTry-- })
	}
	if c.Reps > 1 {
		try(func(d *Cand) { d.Reps /= 2 })
	}
	try(func(d *Cand) { d.Force = false })
	return out
}

// lookedAt is a feature that only records that it was looked at.
type lookedAt struct {
	CF.Feature
	i     int
	konst bool
	imp   float64
	rec   *[]int
}

func (f *lookedAt) BestSplit(target CF.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *CF.BestSplitAllocs) (any, float64, bool) {
	*f.rec = append(*f.rec, f.i)
	if f.konst {
		return nil, 1e-12, true
	}
	return 0.5, f.imp, false
}

func runP18Cand(x *Ctx, c *Cand) {
	if c.Known+c.New > c.Feats {
		return
	}
	type call struct {
		seen, deck  []int
		fi, n       int
		dec         float64
		before, aft []int
	}
	var calls []call
	var first []int
	res := x.Lib(nil, func(o *sim.Options) {
		if c.Reps > 200 {
			o.RandMode = 0
		}
	}, func() {
		r := &sim.RNG{S: c.Seed}
		tf := catFeature("C:t", []int{0, 1, 0, 1, 1, 0}, 2)
		fm := &CF.FeatureMatrix{Map: map[string]int{}}
		var rec []int
		var deck []int
		perm := make([]int, c.Feats)
		for i := range perm {
			j := r.Intn(i + 1)
			perm[i], perm[j] = perm[j], i
		}
		for i := 0; i < c.Feats; i++ {
			fm.Data = append(fm.Data, &lookedAt{i: i, rec: &rec, imp: 0.1 + float64(r.Intn(5))*0.05})
		}
		deck = append(deck, perm...)
		for k := 0; k < c.Known; k++ {
			fm.Data[deck[c.Feats-1-k]].(*lookedAt).konst = true
		}
		for k := 0; k < c.New; k++ {
			fm.Data[deck[k]].(*lookedAt).konst = true
		}
		first = copyInts(deck)
		allocs := CF.NewBestSplitAllocs(6, tf)
		cases := []int{0, 1, 2, 3, 4, 5}
		var oob []int
		for k := 0; k < c.Reps; k++ {
			rec = rec[:0]
			cl := call{before: copyInts(deck)}
			var split any
			cl.fi, split, cl.dec, cl.n = fm.BestSplitter(tf, &cases, &deck, c.MTry, &oob, 1, c.Force, false, false, false, allocs, c.Known)
			if split == nil {
				cl.fi = -1
			}
			cl.seen, cl.aft = copyInts(rec), copyInts(deck)
			calls = append(calls, cl)
		}
	})
	x.MustEnd(res, "choosing candidates")
	known := map[int]bool{}
	for _, f := range first[c.Feats-c.Known:] {
		known[f] = true
	}
	newc := map[int]bool{}
	for _, f := range first[:c.New] {
		newc[f] = true
	}
	imp := make([]float64, c.Feats)
	r := &sim.RNG{S: c.Seed}
	for i := range imp {
		r.Intn(i + 1)
	}
	for i := range imp {
		imp[i] = 0.1 + float64(r.Intn(5))*0.05
	}
	counts := make([]int, c.Feats)
	for _, cl := range calls {
		x.Count("choices", 1)
		a, b := copyInts(cl.aft), copyInts(first)
		sort.Ints(a)
		sort.Ints(b)
		if fmt.Sprint(a) != fmt.Sprint(b) {
			x.Fail("deck", "the candidates %v became %v", cl.before, cl.aft)
		}
		for i := c.Feats - c.Known; i < c.Feats; i++ {
			if cl.aft[i] != cl.before[i] {
				x.Fail("constants", "the %d known constants were moved: %v became %v", c.Known, cl.before, cl.aft)
			}
		}
		seen := map[int]bool{}
		best, nn, found := 0.0, 0, 0
		for _, f := range cl.seen {
			if seen[f] {
				x.Fail("twice", "candidate %d was looked at twice: %v", f, cl.seen)
			}
			if known[f] {
				x.Fail("constants", "candidate %d was looked at though it is known to be constant", f)
			}
			seen[f] = true
			counts[f]++
			if newc[f] {
				found++
				continue
			}
			nn++
			if imp[f] > best {
				best = imp[f]
			}
		}
		if len(cl.seen) > c.MTry && !c.Force {
			x.Fail("too-many", "%d candidates were looked at, %d were asked for", len(cl.seen), c.MTry)
		}
		if len(cl.seen) > c.MTry && nn > 1 {
			x.Fail("too-many", "%d candidates were looked at, %d of them not constant; %d were asked for", len(cl.seen), nn, c.MTry)
		}
		if c.Known == 0 {
			want := c.MTry
			if want > c.Feats {
				want = c.Feats
			}
			if len(cl.seen) < want {
				x.Fail("too-few", "%d of %d candidates were looked at, %d were asked for", len(cl.seen), c.Feats, c.MTry)
			}
		}
		if (c.Force || c.MTry >= c.Feats) && nn == 0 && c.Feats > c.Known+c.New {
			x.Fail("force", "no candidate that is not constant was looked at: %v", cl.seen)
		}
		if c.MTry >= c.Feats && len(cl.seen) < c.Feats-c.Known {
			x.Fail("too-few", "only %d of the %d candidates were looked at: %v", len(cl.seen), c.Feats-c.Known, cl.seen)
		}
		if cl.n != c.Known+found {
			x.Fail("count", "%d constants are reported; %d were known and %d were found", cl.n, c.Known, found)
		}
		for i := c.Feats - cl.n; i < c.Feats; i++ {
			if f := cl.aft[i]; !known[f] && !(newc[f] && seen[f]) {
				x.Fail("constants", "candidate %d is put among the %d constants though it is not known to be one: %v", f, cl.n, cl.aft)
			}
		}
		if nn > 0 && (cl.fi < 0 || !seen[cl.fi] || imp[cl.fi] != best || cl.dec != best) || nn == 0 && cl.fi >= 0 {
			x.Fail("best", "of the candidates looked at, %v, %d was chosen (decrease %v)", cl.seen, cl.fi, cl.dec)
		}
	}
	if c.Reps > 200 && x.execs[0].RandMode == 0 && !c.Force {
		k := c.MTry
		if k > c.Feats {
			k = c.Feats
		}
		p := make([]float64, c.Feats)
		for i := range p {
			p[i] = float64(k) / float64(c.Feats)
			if known[i] {
				p[i] = 0
			}
		}
		x.fair("candidates", counts, p, c.Reps, func(i int) string { return fmt.Sprintf("candidate %d", i) })
	}
}

// spied is a feature that records the cases it is asked to split.
type spied struct {
	CF.Feature
	i   int
	rec *[]spyCall
}

type spyCall struct {
	feat int
	key  string
}

func casesKey(cases []int) string {
	s := copyInts(cases)
	sort.Ints(s)
	var b strings.Builder
	for _, i := range s {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(' ')
	}
	return b.String()
}

func (f *spied) BestSplit(target CF.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *CF.BestSplitAllocs) (any, float64, bool) {
	*f.rec = append(*f.rec, spyCall{f.i, casesKey(*cases)})
	return f.Feature.BestSplit(target, cases, parentImp, leafSize, randomSplit, allocs)
}

// TreeCand grows trees and watches which features each node looks at.
type TreeCand struct {
	T      TSpec  `json:"t"`
	Seed   uint64 `json:"seed"`
	Trees  int    `json:"trees"`
	MTry   int    `json:"mtry"`
	Leaf   int    `json:"leaf"`
	Depth  int    `json:"depth,omitempty"`
	SplitM bool   `json:"split_missing,omitempty"`
	Force  bool   `json:"force,omitempty"`
	Jungle bool   `json:"jungle,omitempty"`
	Lib    bool   `json:"lib,omitempty"` // through GrowRandomForest
}

func (c TreeCand) shrinks() []TreeCand {
	var out []TreeCand
	try := func(f func(*TreeCand)) { d := c; f(&d); out = append(out, d) }
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *TreeCand) { d.T = t })
	}
	if c.Trees > 1 {
		try(func(d *TreeCand) { d.Trees-- })
	}
	try(func(d *TreeCand) { d.SplitM = false })
	try(func(d *TreeCand) { d.Force = false })
	try(func(d *TreeCand) { d.Jungle = false })
	try(func(d *TreeCand) { d.Lib = false })
	try(func(d *TreeCand) { d.Depth = 0 })
	return out
}

func runP18Trees(x *Ctx, c *TreeCand) {
	tab := c.T.Build()
	type grown struct {
		snap *TTree
		bag  []int
		rec  []spyCall
	}
	var trees [64]grown
	n := 0
	var bags [64][]int
	nb := 0
	var perr error
	var cands []int
	names := map[int]string{}
	sim.ProbeHook = func(name string, a []any) func() {
		if name == "Tree.Grow" && nb < 64 {
			bags[nb] = copyInts(a[3].([]int))
			nb++
		}
		return nil
	}
	res := x.Lib(nil, nil, func() {
		fm := CF.ParseAFM(sim.NewStream(tab.AFM(false, nil, true, false)))
		if fm == nil {
			perr = fmt.Errorf("the data can't be parsed")
			return
		}
		ti := fm.Map[c.T.target()]
		target := fm.Data[ti].(CF.Target)
		var rec []spyCall
		for i, f := range fm.Data {
			names[i] = f.GetName()
			if i != ti {
				fm.Data[i] = &spied{f, i, &rec}
				cands = append(cands, i)
			}
		}
		can := copyInts(cands)
		if c.Lib {
			f := CF.GrowRandomForest(fm, target, can, c.T.Cases, c.MTry, c.Trees, c.Leaf, c.Depth, c.SplitM, c.Force, false, false, nil)
			n = len(f.Trees)
			return
		}
		allocs := CF.NewBestSplitAllocs(c.T.Cases, target)
		for k := 0; k < c.Trees; k++ {
			rec = rec[:0]
			t := CF.NewTree()
			t.Target = c.T.target()
			bag := CF.SampleWithReplacment(c.T.Cases, c.T.Cases)
			g := &trees[k]
			g.bag = copyInts(bag)
			f := t.Grow
			if c.Jungle {
				f = t.GrowJungle
			}
			f(fm, target, bag, can, nil, c.MTry, c.Leaf, c.Depth, c.SplitM, c.Force, false, false, false, nil, nil, allocs)
			g.snap = snapshot(t)
			g.rec = append([]spyCall(nil), rec...)
			n++
		}
	})
	sim.ProbeHook = nil
	x.MustEnd(res, "growing trees")
	if perr != nil {
		x.Fail("refused", "%v", perr)
	}
	if n != c.Trees {
		x.Fail("trees", "%d trees for %d", n, c.Trees)
	}
	tf := tab.get(c.T.target())
	if c.Lib {
		if nb != c.Trees {
			x.Fail("trees", "%d trees were grown for %d", nb, c.Trees)
		}
		for _, b := range bags[:nb] {
			if len(b) != c.T.Cases {
				x.Fail("size", "a bag of %d cases, %d were asked for", len(b), c.T.Cases)
			}
			for _, i := range b {
				if i < 0 || i >= c.T.Cases {
					x.Fail("range", "case %d in a bag of %d", i, c.T.Cases)
				}
			}
		}
		return
	}
	for k := 0; k < n; k++ {
		g := &trees[k]
		looked := map[string]map[int]bool{}
		for _, s := range g.rec {
			if looked[s.key] == nil {
				looked[s.key] = map[int]bool{}
			}
			if looked[s.key][s.feat] {
				x.Fail("twice", "a node looked twice at %s", names[s.feat])
			}
			looked[s.key][s.feat] = true
		}
		for key, fs := range looked {
			if len(fs) > c.MTry && !c.Force {
				x.Fail("too-many", "a node with cases %s looked at %d features, %d were asked for", key, len(fs), c.MTry)
			}
		}
		_, err := g.snap.Root.levels(tab, g.bag, func(nd *TNode, cases, l, r, m []int, depth int) {
			if c.Depth > 0 && depth >= c.Depth || len(cases) < 2*c.Leaf {
				return
			}
			if imp, scale := impurity(tf, cases); imp <= 1e-6*(1+scale) {
				return
			}
			fs := looked[casesKey(cases)]
			useful, any := 0, false
			for _, i := range cands {
				f := tab.get(names[i])
				if !splittable(f, cases, c.Leaf) {
					continue
				}
				useful++
				if fs[i] {
					any = true
				} else if c.MTry >= len(cands) {
					x.Fail("not-looked-at", "a node with the cases %v does not look at %s, which is not constant there, though all features are to be looked at; tree %d: %s", cases, f.Name, k, g.snap)
				}
			}
			x.Count("nodes", 1)
			if c.Force && useful > 0 && !any {
				// a feature without known values, or too few of them, counts as looked at
				for i := range fs {
					f := tab.get(names[i])
					known, first := 0, 0
					for _, j := range cases {
						if !f.Miss[j] {
							if known == 0 {
								first = j
							}
							if f.Num && f.Val[j] != f.Val[first] {
								any = true
							}
							known++
						}
					}
					if known == 0 || known < 2*c.Leaf || !f.Num { // the search over many categories never says constant
						any = true
					}
				}
				if !any {
					x.Fail("force", "a node with the cases %v looks at %v only, all constant there", cases, fs)
				}
			}
		})
		if err != nil {
			x.Fail("rules", "%v", err)
		}
	}
}

// splittable says whether some value or category parts the known cases with enough on both sides.
func splittable(f *Feat, cases []int, leaf int) bool {
	known := 0
	cats := map[string]int{}
	var vals []float64
	for _, i := range cases {
		if f.Miss[i] {
			continue
		}
		known++
		if f.Num {
			vals = append(vals, f.Val[i])
		} else {
			cats[f.Str[i]]++
		}
	}
	if f.Num {
		sort.Float64s(vals)
		for i := leaf; i <= known-leaf; i++ {
			if i > 0 && i < known && vals[i] > vals[i-1]+1e-5 {
				return true
			}
		}
		return false
	}
	for _, k := range cats {
		if k >= leaf && known-k >= leaf && k < known {
			return true
		}
	}
	return false
}

// runP18Bags checks the bags of a growing run.
func runP18Bags(x *Ctx, c *GF) {
	q := runGF(x, c, true, func(o *sim.Options) { o.RandMode = 0 }, nil)
	x.MustEnd(q.Res, "growforest")
	if q.NGrow == 0 {
		x.Fail("no-tree", "no tree was grown")
	}
	base := q.Grows()[0].Tab // as imputed
	tf := base.get(c.T.target())
	n := len(tf.Miss)
	p := make([]float64, n)
	known := func(i int) bool { return !tf.Miss[i] || c.Impute }
	var st *Feat
	if c.BalBy {
		st = base.get("C:stratum")
	}
	size := map[string]int{}   // cases per class (and stratum)
	strata := map[string]int{} // cases per stratum
	kinds := map[string]int{}
	total := 0
	key := func(i int) (string, string) {
		s := ""
		if st != nil {
			s = st.Str[i]
		}
		return s, s + "\x00" + tf.GetStr(i)
	}
	for i := 0; i < n; i++ {
		if !known(i) || st != nil && st.Miss[i] && !c.Impute {
			continue
		}
		s, k := key(i)
		if size[k] == 0 {
			kinds[s]++
		}
		size[k]++
		strata[s]++
		total++
	}
	for i := 0; i < n; i++ {
		if !known(i) || st != nil && st.Miss[i] && !c.Impute {
			continue
		}
		if c.Balance || c.BalBy {
			s, k := key(i)
			p[i] = float64(strata[s]) / float64(total) / float64(kinds[s]) / float64(size[k])
		} else {
			p[i] = 1 / float64(total)
		}
	}
	counts := make([]int, n)
	draws := 0
	seen := map[string]bool{}
	for _, g := range q.Grows() {
		q.checkBag(x, g)
		for _, i := range g.Bag {
			counts[i]++
			if p[i] == 0 {
				x.Fail("unknown", "case %d, whose class or stratum is not known, is in a bag", i)
			}
		}
		draws += len(g.Bag)
		if !c.NoBag && len(g.Bag) >= 20 && total >= 12 && tf.Num {
			if k := fmt.Sprint(g.Bag); seen[k] {
				x.Fail("same-bag", "two trees were grown from the same bag %s", k)
			} else {
				seen[k] = true
			}
		}
	}
	if c.NoBag {
		if q.bagSize() >= total {
			return
		}
		for i := range p {
			p[i] *= float64(q.bagSize())
		}
		draws = len(q.Grows())
	}
	x.fair("bags", counts, p, draws, func(i int) string { return fmt.Sprintf("case %d (%s)", i, tf.GetStr(i)) })
}

func init() {
	register(&Property{ID: "P18", Quick: 30000, Real: append([]string{"samplers", "candidate choice (BestSplitter)"}, growReal...),
		Scenarios: []*Scenario{
			scen("samplers", 8, func(r *sim.RNG, tier string) Samp { return genSamp(r) }, runP18, Samp.shrinks),
			scen("candidates", 4, func(r *sim.RNG, tier string) Cand {
				c := Cand{Feats: 1 + r.Intn(12), Force: r.Intn(3) == 0, Reps: 1 + r.Intn(20), Seed: r.Next() % 1000000}
				c.MTry = 1 + r.Intn(c.Feats+1)
				switch r.Intn(3) {
				case 0:
					c.Known = r.Intn(c.Feats + 1)
				case 1:
					c.New = r.Intn(c.Feats + 1)
				}
				if r.Intn(3) == 0 {
					c.Known = r.Intn(c.Feats + 1)
					c.New = r.Intn(c.Feats - c.Known + 1)
				}
				if r.Intn(3) == 0 {
					c.Reps = 300 + r.Intn(1200)
				}
				return c
			}, runP18Cand, Cand.shrinks),
			scen("nodes", 3, func(r *sim.RNG, tier string) TreeCand {
				t := "num"
				if r.Intn(2) == 0 {
					t = "cat"
				}
				c := TreeCand{T: genTSpec(r, t), Trees: 1 + r.Intn(4), Leaf: 1 + r.Intn(3), SplitM: r.Intn(3) == 0, Force: r.Intn(3) == 0, Jungle: r.Intn(8) == 0, Lib: r.Intn(8) == 0}
				c.T.TMiss = 0
				nf := c.T.Nums + c.T.Cats
				c.MTry = 1 + r.Intn(nf+2)
				if r.Intn(2) == 0 {
					c.MTry = nf + 5
				}
				if r.Intn(4) == 0 {
					c.Depth = 1 + r.Intn(3)
				}
				return c
			}, runP18Trees, TreeCand.shrinks),
			scen("bags", 1, func(r *sim.RNG, tier string) GF {
				t := "num"
				if r.Intn(2) == 0 {
					t = "cat"
				}
				c := GF{T: genTSpec(r, t), Cores: 1 + r.Intn(4), Trees: 60 + r.Intn(60), MaxDepth: 1, MTry: "1"}
				c.T.Cases = 8 + r.Intn(20)
				c.T.MaxCat = 3
				c.Seeded = r.Intn(3) == 0
				c.Impute = r.Intn(5) == 0
				switch r.Intn(4) {
				case 0:
					c.NoBag = true
					c.NSamples = strconv.Itoa(1 + r.Intn(c.T.Cases/3))
				case 1:
					c.NSamples = strconv.Itoa(3 + r.Intn(2*c.T.Cases))
				}
				if t == "cat" && !c.NoBag {
					switch r.Intn(3) {
					case 0:
						c.Balance = true
					case 1:
						c.BalBy, c.T.Strata = true, true
					}
				}
				return c
			}, runP18Bags, GF.shrinks),
		}})
}
