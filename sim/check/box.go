package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// BoxOp is one call on a shared box.
type BoxOp struct {
	Op   string  `json:"op"` // vote, tally, num, error, write
	Case int     `json:"case"`
	J    int     `json:"j,omitempty"`
	Pred string  `json:"pred,omitempty"`
	W    float64 `json:"w,omitempty"`
}

// BoxJob is several callers sharing a box.
type BoxJob struct {
	Kind  string    `json:"kind"` // cat, num, sum, mean, sparse
	Cases int       `json:"cases"`
	Calls [][]BoxOp `json:"calls"`
}

var boxCats = []string{"b", "a", "c", "zz", "0", "1.5"}

func genBoxJob(r *sim.RNG) BoxJob {
	c := BoxJob{Kind: []string{"cat", "cat", "num", "sum", "mean", "sparse"}[r.Intn(6)], Cases: 1 + r.Intn(3)}
	if c.Kind == "mean" {
		c.Cases = 1 + r.Intn(2)
	}
	n := 2 + r.Intn(5)
	ncat := 1 + r.Intn(len(boxCats))
	left := 16
	for i := 0; i < n && left > 0; i++ {
		k := 1 + r.Intn(5)
		if k > left {
			k = left
		}
		left -= k
		var ops []BoxOp
		for j := 0; j < k; j++ {
			o := BoxOp{Op: "vote", Case: r.Intn(c.Cases), J: r.Intn(3), W: []float64{1, 1, 1, 0.5, 2, 0.25, 0, 3}[r.Intn(8)]}
			switch c.Kind {
			case "cat":
				o.Pred = boxCats[r.Intn(ncat)]
			case "sparse":
				o.W = float64(1 + r.Intn(4))
			default:
				o.Pred = []string{"1", "-2.5", "4", "0.125", "0", "1e3", "7", "red"}[r.Intn(8)]
				if c.Kind == "mean" && o.Pred == "red" {
					o.Pred = "9"
				}
			}
			switch r.Intn(9) {
			case 0, 1, 2:
				o.Op = "tally"
			case 3:
				o.Op = "num"
			case 4:
				if r.Intn(3) == 0 {
					o.Op = "error"
				}
			}
			if c.Kind == "sparse" && o.Op != "vote" {
				o.Op = "write"
			}
			if (c.Kind == "mean" || c.Kind == "sparse") && o.Op == "error" || c.Kind == "cat" && o.Op == "num" {
				o.Op = "tally"
			}
			ops = append(ops, o)
		}
		c.Calls = append(c.Calls, ops)
	}
	return c
}

func (c BoxJob) shrinks() []BoxJob {
	var out []BoxJob
	for i := range c.Calls {
		if len(c.Calls) > 1 {
			d := c
			d.Calls = append(append([][]BoxOp(nil), c.Calls[:i]...), c.Calls[i+1:]...)
			out = append(out, d)
		}
		for j := range c.Calls[i] {
			d := c
			d.Calls = append([][]BoxOp(nil), c.Calls...)
			d.Calls[i] = append(append([]BoxOp(nil), c.Calls[i][:j]...), c.Calls[i][j+1:]...)
			if len(d.Calls[i]) > 0 {
				out = append(out, d)
			}
		}
	}
	return out
}

// called is a call with its place in real time and its result.
type called struct {
	BoxOp
	caller   int
	inv, ret int
	out      string
	val, cnt float64
}

func (h *called) String() string {
	s := fmt.Sprintf("caller %d %s(case %d", h.caller, h.Op, h.Case)
	if h.Op == "vote" {
		s += fmt.Sprintf(", %q, weight %v", h.Pred, h.W)
	}
	s += ")"
	if h.Op == "tally" || h.Op == "write" {
		s += " = " + strings.ReplaceAll(h.out, "\n", "; ")
	}
	if h.Op == "num" {
		s += fmt.Sprintf(" = %v", h.val)
	}
	return fmt.Sprintf("[%d-%d] %s", h.inv, h.ret, s)
}

// fits says whether a read's result is right when exactly the given calls came before it.
func (h *called) fits(kind string, before []*called) bool {
	switch kind {
	case "cat":
		v := newVotes(1)
		for _, b := range before {
			v.cat[0][b.Pred] += b.W
		}
		w := v.winners(0)
		if w == nil {
			return h.out == "NA" || len(v.cat[0]) > 0 && hasKey(v.cat[0], h.out)
		}
		return w[h.out]
	case "sparse":
		m := map[string]int{}
		for _, b := range before {
			m[fmt.Sprintf("%d\t%d", b.Case, b.J)] += int(b.W)
		}
		got := map[string]int{}
		for _, l := range strings.Split(strings.TrimSuffix(h.out, "\n"), "\n") {
			if l == "" {
				continue
			}
			i := strings.LastIndexByte(l, '\t')
			if i < 0 {
				return false
			}
			n, err := strconv.Atoi(l[i+1:])
			if _, dup := got[l[:i]]; err != nil || dup {
				return false
			}
			got[l[:i]] = n
		}
		if len(got) != len(m) {
			return false
		}
		for k, n := range m {
			if got[k] != n {
				return false
			}
		}
		return true
	}
	sum, cnt := 0.0, 0.0
	for _, b := range before {
		p, err := strconv.ParseFloat(b.Pred, 64)
		if err != nil {
			continue
		}
		sum += p * b.W
		cnt += b.W
	}
	mean := 0.0
	if cnt > 0 {
		mean = sum / cnt
	}
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
	switch {
	case kind == "mean":
		return near(h.val, mean) && near(h.cnt, cnt)
	case kind == "sum":
		mean = sum
	case h.Op == "tally" && cnt == 0:
		return h.out == "NA"
	}
	if h.Op == "tally" {
		v, err := strconv.ParseFloat(h.out, 64)
		return err == nil && near(v, mean)
	}
	return near(h.val, mean)
}

func hasKey(m map[string]float64, k string) bool { _, ok := m[k]; return ok }

// linear searches an order of the calls that is consistent with real time and explains every result. The state
// depends only on which votes came before, so sets of calls are enough to remember.
func linear(kind string, h []*called) bool {
	n := len(h)
	seen := map[uint32]bool{}
	var try func(mask uint32) bool
	try = func(mask uint32) bool {
		if mask == 1<<n-1 {
			return true
		}
		if seen[mask] {
			return false
		}
		seen[mask] = true
		first := math.MaxInt
		for i, c := range h {
			if mask&(1<<i) == 0 && c.ret < first {
				first = c.ret
			}
		}
		var before []*called
		for i, c := range h {
			if mask&(1<<i) != 0 && c.Op == "vote" {
				before = append(before, c)
			}
		}
		for i, c := range h {
			if mask&(1<<i) != 0 || c.inv > first {
				continue
			}
			if c.Op != "vote" && !c.fits(kind, before) {
				continue
			}
			if try(mask | 1<<i) {
				return true
			}
		}
		return false
	}
	return try(0)
}

// box is what the callers share.
type box struct {
	kind   string
	cat    *CF.CatBallotBox
	num    *CF.NumBallotBox
	sum    *CF.SumBallotBox
	means  *[]*CF.RunningMean
	sparse *CF.SparseCounter
	catf   *CF.DenseCatFeature
	numf   *CF.DenseNumFeature
}

func newBox(kind string, n int) *box {
	b := &box{kind: kind}
	switch kind {
	case "cat":
		b.cat = CF.NewCatBallotBox(n)
		b.catf = &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}, Back: []string{}}, Name: "C:t"}
		for i := 0; i < n; i++ {
			b.catf.Append(map[bool]string{true: "NA", false: boxCats[i%2]}[boxMissing(i)])
		}
	case "num":
		b.num = CF.NewNumBallotBox(n)
		b.numf = &CF.DenseNumFeature{Name: "N:t"}
		for i := 0; i < n; i++ {
			b.numf.Append(map[bool]string{true: "NA", false: strconv.Itoa(i)}[boxMissing(i)])
		}
	case "sum":
		b.sum = CF.NewSumBallotBox(n)
		b.numf = &CF.DenseNumFeature{Name: "N:t"}
	case "mean":
		b.means = CF.NewRunningMeans(n)
	case "sparse":
		b.sparse = new(CF.SparseCounter)
	}
	return b
}

// boxMissing says whether the true value of a case isn't known.
func boxMissing(i int) bool { return i%4 == 2 }

// boxTarget is what the error of a box made by newBox is taken against.
func boxTarget(kind string, n int) *Feat {
	f := &Feat{Name: "t", Num: kind == "num"}
	for i := 0; i < n; i++ {
		f.Val = append(f.Val, float64(i))
		f.Str = append(f.Str, boxCats[i%2])
		f.Miss = append(f.Miss, boxMissing(i))
	}
	if kind != "num" && kind != "cat" {
		return nil
	}
	return f
}

func (b *box) do(c *called) {
	switch b.kind {
	case "cat":
		switch c.Op {
		case "vote":
			b.cat.Vote(c.Case, c.Pred, c.W)
		case "error":
			c.val = b.cat.TallyError(b.catf)
		default:
			c.out = b.cat.Tally(c.Case)
		}
	case "num":
		switch c.Op {
		case "vote":
			b.num.Vote(c.Case, c.Pred, c.W)
		case "error":
			c.val = b.num.TallyError(b.numf)
		case "num":
			c.val = b.num.TallyNum(c.Case)
		default:
			c.out = b.num.Tally(c.Case)
		}
	case "sum":
		switch c.Op {
		case "vote":
			b.sum.Vote(c.Case, c.Pred, c.W)
		case "error":
			c.val = b.sum.TallyError(b.numf)
		case "num":
			c.val = b.sum.TallyNum(c.Case)
		default:
			c.out = b.sum.Tally(c.Case)
		}
	case "mean":
		m := (*b.means)[c.Case]
		if c.Op == "vote" {
			p, _ := strconv.ParseFloat(c.Pred, 64)
			if c.W == 1 && c.J > 0 {
				m.Add(p)
			} else {
				m.WeightedAdd(p, c.W)
			}
			return
		}
		c.val, c.cnt = m.Read()
	case "sparse":
		if c.Op == "vote" {
			b.sparse.Add(c.Case, c.J, int(c.W))
			return
		}
		var o bytes.Buffer
		b.sparse.WriteTsv(&o)
		c.out = o.String()
	}
}

// busy makes preemptions frequent enough for short calls.
func busy(o *sim.Options) {
	switch o.Seed % 4 {
	case 0:
		o.Policy = sim.Policy{Gap: 2, SyncP: 0.5}
	case 1:
		o.Policy = sim.Policy{Gap: 5, SyncP: 0.3}
	case 2:
		o.Policy = sim.Policy{PCT: true, PCTSteps: 150, PCTDepth: 1 + int(o.Seed>>3%4)}
	}
}

func runP08Box(x *Ctx, c *BoxJob) {
	var h []*called
	var final []*called
	clock := 0
	var b *box
	run := func(caller int, o BoxOp) *called {
		d := &called{BoxOp: o, caller: caller}
		clock++
		d.inv = clock
		sim.Checkpoint()
		b.do(d)
		clock++
		d.ret = clock
		return d
	}
	res := x.Lib(nil, busy, func() {
		b = newBox(c.Kind, c.Cases)
		var wg sim.WaitGroup
		wg.Add(len(c.Calls))
		for i, ops := range c.Calls {
			sim.Go(func() {
				for _, o := range ops {
					h = append(h, run(i, o))
				}
				wg.Done()
			})
		}
		wg.Wait()
		for i := 0; i < c.Cases; i++ {
			final = append(final, run(-1, BoxOp{Op: "tally", Case: i}))
			if c.Kind == "num" || c.Kind == "sum" {
				final = append(final, run(-1, BoxOp{Op: "num", Case: i}))
			}
			if c.Kind == "sparse" {
				break
			}
		}
	})
	x.MustEnd(res, "sharing a "+c.Kind+" box")
	x.noRaces(res)
	h = append(h, final...)
	parts := 1
	if c.Kind != "sparse" {
		parts = c.Cases // cases are separate objects
	}
	for k := 0; k < parts; k++ {
		var p []*called
		for _, d := range h {
			if d.Op != "error" && (c.Kind == "sparse" || d.Case == k) {
				p = append(p, d)
			}
		}
		if len(p) > 30 {
			x.Fail("harness", "history too long")
		}
		sort.Slice(p, func(i, j int) bool { return p[i].inv < p[j].inv })
		if !linear(c.Kind, p) {
			var s []string
			for _, d := range p {
				s = append(s, d.String())
			}
			x.Fail("linearizable", "no order of the calls on a %s box explains their results:\n%s", c.Kind, strings.Join(s, "\n"))
		}
		x.Count("histories of one case checked", 1)
		x.Count("calls in them", len(p))
	}
	if c.Kind == "cat" {
		checkCatBox(x, b.cat, h, c.Cases)
	}
}

// checkCatBox compares the totals in the box with the votes.
func checkCatBox(x *Ctx, bb *CF.CatBallotBox, h []*called, cases int) {
	if len(bb.Map) != len(bb.Back) {
		x.Fail("categories", "the box knows %d categories by name and %d by number", len(bb.Map), len(bb.Back))
	}
	for i, s := range bb.Back {
		if n, ok := bb.Map[s]; !ok || n != i {
			x.Fail("categories", "category %q has number %d and %d", s, i, n)
		}
	}
	for i := 0; i < cases; i++ {
		want := map[string]float64{}
		for _, d := range h {
			if d.Op == "vote" && d.Case == i {
				want[d.Pred] += d.W
			}
		}
		for k, v := range bb.Box[i].Map {
			if k < 0 || k >= len(bb.Back) || !near(v, want[bb.Back[k]], 1e-9) {
				x.Fail("total", "case %d has the total %v for category %d of %q, its votes are %v", i, v, k, bb.Back, want)
			}
		}
		for s, v := range want {
			if v != 0 {
				if n, ok := bb.Map[s]; !ok || !near(bb.Box[i].Map[n], v, 1e-9) {
					x.Fail("total", "case %d has votes %v for %q, the box does not hold them: %v", i, v, s, bb.Box[i].Map)
				}
			}
		}
	}
}

// TreeVotes is a forest whose trees vote in parallel.
type TreeVotes struct {
	T       TSpec  `json:"t"`
	F       FSpec  `json:"f"`
	Callers int    `json:"callers"`
	Sum     bool   `json:"sum,omitempty"`
	Part    bool   `json:"part,omitempty"`  // vote for some cases only
	Watch   bool   `json:"watch,omitempty"` // somebody tallies meanwhile
	Test    uint64 `json:"test,omitempty"`
}

func genTreeVotes(r *sim.RNG) TreeVotes {
	c := TreeVotes{T: genTSpec(r, []string{"num", "cat"}[r.Intn(2)]), F: genFSpec(r), Callers: 2 + r.Intn(5), Part: r.Intn(3) == 0, Watch: r.Intn(3) == 0}
	c.T.Cases = 4 + r.Intn(14)
	c.F.Trees = 2 + r.Intn(8)
	if c.T.Target == "num" || r.Intn(5) == 0 {
		c.F.NumPred = true
		c.Sum = r.Intn(3) == 0
	}
	if r.Intn(2) == 0 {
		c.Test = 1 + r.Next()%100000
	}
	return c
}

func (c TreeVotes) shrinks() []TreeVotes {
	var out []TreeVotes
	try := func(f func(*TreeVotes)) {
		d := c
		f(&d)
		if d != c {
			out = append(out, d)
		}
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *TreeVotes) { d.T = t })
	}
	for _, f := range c.F.shrinks() {
		f := f
		try(func(d *TreeVotes) { d.F = f })
	}
	for _, f := range []func(*TreeVotes){func(d *TreeVotes) { d.Callers = (d.Callers + 2) / 2 }, func(d *TreeVotes) { d.Part = false }, func(d *TreeVotes) { d.Watch = false },
		func(d *TreeVotes) { d.Sum = false }, func(d *TreeVotes) { d.Test = 0 }} {
		try(f)
	}
	return out
}

func runP08Trees(x *Ctx, c *TreeVotes) {
	tab := c.T.Build()
	sf := c.F.Build(tab, c.T.target())
	d := tab
	if c.Test != 0 {
		d = testTable(tab, c.Test)
	}
	data, text := d.AFM(false, nil, true, false), sf.Emit()
	n := len(d.Cases)
	cases := make([][]int, len(sf.Trees))
	v := newVotes(n)
	for k, t := range sf.Trees {
		for i := 0; i < n; i++ {
			if !c.Part || x.r.Intn(3) > 0 {
				cases[k] = append(cases[k], i)
			}
		}
		w := 1.0
		if t.Weight >= 0 {
			w = t.Weight
		}
		if err := v.vote(t, d, cases[k], w); err != nil {
			x.Fail("harness", "%v", err)
		}
	}
	numeric := c.F.NumPred || c.T.Target == "num"
	said := make([]string, n)
	var cb *CF.CatBallotBox
	res := x.Lib(nil, busy, func() {
		fm := CF.ParseAFM(bytes.NewReader(data))
		f, err := CF.NewForestReader(bytes.NewReader(text)).ReadForest()
		if err != nil {
			panic(err)
		}
		var bb CF.VoteTallyer
		switch {
		case c.Sum:
			bb = CF.NewSumBallotBox(n)
		case numeric:
			bb = CF.NewNumBallotBox(n)
		default:
			cb = CF.NewCatBallotBox(n)
			bb = cb
		}
		var wg sim.WaitGroup
		wg.Add(c.Callers)
		for w := 0; w < c.Callers; w++ {
			sim.Go(func() {
				for k := w; k < len(f.Trees); k += c.Callers {
					if c.Part {
						f.Trees[k].VoteCases(fm, bb, append([]int(nil), cases[k]...))
					} else {
						f.Trees[k].Vote(fm, bb)
					}
				}
				wg.Done()
			})
		}
		if c.Watch {
			wg.Add(1)
			sim.Go(func() {
				for i := 0; i < n; i++ {
					bb.Tally(i)
				}
				wg.Done()
			})
		}
		wg.Wait()
		for i := 0; i < n; i++ {
			said[i] = bb.Tally(i)
		}
	})
	x.MustEnd(res, "voting in parallel")
	x.noRaces(res)
	for i, s := range said {
		if !numeric {
			w := v.winners(i)
			if w == nil && s != "NA" || w != nil && !w[s] {
				x.Fail("winner", "case %d: %q wins, its votes are %v", i, s, v.cat[i])
			}
			for l, w := range v.cat[i] {
				if k, ok := cb.Map[l]; w != 0 && (!ok || !near(cb.Box[i].Map[k], w, 1e-9)) {
					x.Fail("total", "case %d: the box holds %v for %q, the trees' votes are %v", i, cb.Box[i].Map[k], l, v.cat[i])
				}
			}
			continue
		}
		want := v.sum[i]
		if !c.Sum {
			if v.n[i] == 0 {
				if s != "NA" {
					x.Fail("phantom", "case %d has no votes but the tally %q", i, s)
				}
				continue
			}
			want /= v.n[i]
		}
		if p, err := strconv.ParseFloat(s, 64); err != nil || !sameNum(p, want) {
			x.Fail("value", "case %d: tally %s, its votes make it %v", i, s, want)
		}
	}
	x.Count("tallies after parallel voting", n)
}

// Tallies is votes arriving in different orders.
type Tallies struct {
	Kind   string  `json:"kind"`
	Votes  []BoxOp `json:"votes"`
	Cases  int     `json:"cases"`
	Par    int     `json:"par,omitempty"` // callers voting concurrently
	Orders int     `json:"orders"`
	Fine   bool    `json:"fine,omitempty"` // weights that binary fractions cannot hold
}

func genTallies(r *sim.RNG) Tallies {
	c := Tallies{Kind: []string{"cat", "cat", "num", "sum"}[r.Intn(4)], Cases: 1 + r.Intn(3), Orders: 2 + r.Intn(3), Fine: r.Intn(4) == 0}
	n := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		n = 10 + r.Intn(31)
	}
	ncat := 1 + r.Intn(len(boxCats))
	if r.Intn(2) == 0 {
		c.Par = 2 + r.Intn(3)
	}
	tie := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		o := BoxOp{Op: "vote", Case: r.Intn(c.Cases), W: 1}
		switch {
		case c.Fine:
			o.W = []float64{0.1, 0.2, 0.3, 0.7, 1.1, 1e-9, 1e6 / 3}[r.Intn(7)]
		case !tie:
			o.W = []float64{1, 0.5, 2, 0.25, 0, 3, 1e-3 * 1024 / 1000, 1 << 30}[r.Intn(8)]
		}
		if c.Kind == "cat" {
			o.Pred = boxCats[r.Intn(ncat)]
		} else {
			o.Pred = []string{"1", "-2.5", "4", "0.125", "0", "1e3", "7", "-1e-3", "3.3"}[r.Intn(9)]
		}
		c.Votes = append(c.Votes, o)
	}
	return c
}

func (c Tallies) shrinks() []Tallies {
	var out []Tallies
	for i := range c.Votes {
		d := c
		d.Votes = append(append([]BoxOp(nil), c.Votes[:i]...), c.Votes[i+1:]...)
		out = append(out, d)
	}
	for _, f := range []func(*Tallies){func(d *Tallies) { d.Par = 0 }, func(d *Tallies) { d.Orders = 2 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

func runP09(x *Ctx, c *Tallies) {
	v := newVotes(c.Cases)
	for _, o := range c.Votes {
		v.add(o.Case, o.Pred, o.W)
	}
	var first []string
	for k := 0; k < c.Orders; k++ {
		votes := append([]BoxOp(nil), c.Votes...)
		if k > 0 {
			for i := len(votes) - 1; i > 0; i-- {
				j := x.r.Intn(i + 1)
				votes[i], votes[j] = votes[j], votes[i]
			}
		}
		said := make([]string, c.Cases)
		again := make([]string, c.Cases)
		e := &called{BoxOp: BoxOp{Op: "error"}}
		r2 := 0.0
		res := x.Lib(nil, func(o *sim.Options) {
			if c.Par > 0 {
				busy(o)
			}
		}, func() {
			b := newBox(c.Kind, c.Cases)
			if c.Par > 0 {
				var wg sim.WaitGroup
				wg.Add(c.Par)
				for w := 0; w < c.Par; w++ {
					sim.Go(func() {
						for i := w; i < len(votes); i += c.Par {
							b.do(&called{BoxOp: votes[i]})
						}
						wg.Done()
					})
				}
				wg.Wait()
			} else {
				for _, o := range votes {
					b.do(&called{BoxOp: o})
				}
			}
			for i := range said {
				d := &called{BoxOp: BoxOp{Op: "tally", Case: i}}
				b.do(d)
				said[i] = d.out
				b.do(d)
				again[i] = d.out
			}
			b.do(e)
			if c.Kind == "num" {
				r2 = b.num.TallyR2Score(b.numf)
			}
		})
		x.MustEnd(res, "voting")
		for i, s := range said {
			if s != again[i] {
				x.Fail("unsteady", "two tallies of case %d in a row give %q and %q; its votes are %v", i, s, again[i], v.cat[i])
			}
			switch c.Kind {
			case "cat":
				w := v.winners(i)
				if w == nil && s != "NA" || w != nil && !w[s] {
					x.Fail("winner", "case %d: %q wins, its votes are %v", i, s, v.cat[i])
				}
				if k > 0 && s != first[i] && !(c.Fine && len(w) > 1) {
					x.Fail("order", "case %d with the votes %v: %q wins in one order, %q in another", i, v.cat[i], first[i], s)
				}
			default:
				want := v.sum[i]
				if c.Kind == "num" {
					if v.n[i] == 0 {
						if s != "NA" {
							x.Fail("phantom", "case %d has no votes but the tally %q", i, s)
						}
						continue
					}
					want /= v.n[i]
				}
				if p, err := strconv.ParseFloat(s, 64); err != nil || !sameNum(p, want) {
					x.Fail("value", "case %d: tally %s, its votes make it %v", i, s, want)
				}
			}
			x.Count("tallies", 1)
		}
		if tf := boxTarget(c.Kind, c.Cases); tf != nil && goodTarget(tf) {
			if want := v.error(tf); !(math.IsNaN(want[0]) && math.IsNaN(e.val)) && !within(e.val, want) {
				x.Fail("error", "the error of the votes is reported to be %v, a recount gives %v", e.val, want)
			}
			if c.Kind == "num" && !math.IsNaN(e.val) && math.Abs(1-e.val-r2) > 1e-9*(1+e.val) {
				x.Fail("error", "the error of the votes is reported to be %v and their R2 score %v", e.val, r2)
			}
			x.Count("errors", 1)
		}
		if k == 0 {
			first = said
		}
	}
}

// Perm applies the trees of a forest in two orders.
type Perm struct {
	AF
}

func (c Perm) shrinks() []Perm {
	var out []Perm
	for _, a := range c.AF.shrinks() {
		out = append(out, Perm{a})
	}
	return out
}

func runP09Tool(x *Ctx, c *Perm) {
	c.Preds, c.F.Weights = true, false
	fs := sim.NewFS()
	args, sf, d := c.setup(fs)
	fs2 := fs.Clone()
	res := x.Tool("applyforest", args, fs, nil)
	x.MustEnd(res, "applyforest")
	q := *sf
	q.Trees = append([]*TTree(nil), sf.Trees...)
	for i := len(q.Trees) - 1; i > 0; i-- {
		j := x.r.Intn(i + 1)
		q.Trees[i], q.Trees[j] = q.Trees[j], q.Trees[i]
	}
	fs2.Put("in.sf", q.Emit())
	res = x.Tool("applyforest", args, fs2, nil)
	x.MustEnd(res, "applyforest")
	a, _ := fs.Get("preds.tsv")
	b, _ := fs2.Get("preds.tsv")
	ra, rb := tsv(a), tsv(b)
	if len(ra) != len(rb) || len(ra) != len(d.Cases) {
		x.Fail("rows", "%d and %d predictions for %d cases", len(ra), len(rb), len(d.Cases))
	}
	for i := range ra {
		s, t := strings.Join(ra[i], "\t"), strings.Join(rb[i], "\t")
		if s == t {
			continue
		}
		u, e1 := strconv.ParseFloat(ra[i][1], 64)
		w, e2 := strconv.ParseFloat(rb[i][1], 64)
		if c.cat() || e1 != nil || e2 != nil || !sameNum(u, w) {
			x.Fail("order", "case %d is predicted %q with the trees in one order and %q in another", i, s, t)
		}
	}
	x.Count("predictions compared", len(ra))
}

func init() {
	register(&Property{ID: "P08", Race: true, Quick: 40000, Real: []string{"ballot boxes", "running means", "sparse counters", "category tables", "tree voting", "forest reader", "data loading"}, Scenarios: []*Scenario{
		scen("calls", 4, func(r *sim.RNG, tier string) BoxJob { return genBoxJob(r) }, runP08Box, BoxJob.shrinks),
		scen("trees", 1, func(r *sim.RNG, tier string) TreeVotes { return genTreeVotes(r) }, runP08Trees, TreeVotes.shrinks),
	}})
	register(&Property{ID: "P09", Quick: 60000, Real: append([]string{"ballot boxes"}, applyReal...), Scenarios: []*Scenario{
		scen("orders", 5, func(r *sim.RNG, tier string) Tallies { return genTallies(r) }, runP09, Tallies.shrinks),
		scen("trees", 1, func(r *sim.RNG, tier string) Perm { return Perm{genAF(r)} }, runP09Tool, Perm.shrinks),
	}})
}
