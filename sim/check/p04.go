package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"cfsim/sim"
)

// testTable derives test data: other cases, another order of features, cases and categories, categories the
// training data do not have, more missing values.
func testTable(t *Table, seed uint64) *Table {
	r := &sim.RNG{S: sim.Mix(seed, 7)}
	var cases []int
	n := 1 + r.Intn(len(t.Cases)+5)
	for i := 0; i < n; i++ {
		cases = append(cases, r.Intn(len(t.Cases)))
	}
	o := t.subset(cases)
	miss := 0
	if r.Intn(2) == 0 {
		miss = 10
	}
	dup := r.Intn(6) == 0
	for i := range o.Cases {
		o.Cases[i] = fmt.Sprintf("test%d", i)
		if dup && r.Intn(3) == 0 {
			o.Cases[i] = fmt.Sprintf("test%d", r.Intn(i+1)) // cases may share a label
		}
		for _, f := range o.Feats {
			if r.Intn(100) < miss {
				f.Miss[i] = true
			}
			if !f.Num && r.Intn(12) == 0 {
				f.Str[i] = "unseen"
			}
		}
	}
	for _, f := range o.Feats {
		// targets have a known value
		f.Miss[0] = false
		if f.Name != targetN && f.Name != targetC && r.Intn(12) == 0 {
			for i := range f.Miss {
				f.Miss[i] = true
			}
		}
	}
	for i := len(o.Feats) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		o.Feats[i], o.Feats[j] = o.Feats[j], o.Feats[i]
	}
	return o
}

// Votes is the harness' own count of votes.
type Votes struct {
	cat []map[string]float64
	sum []float64
	n   []float64
	bad int // votes that are not numbers, in numerical voting
	max float64
}

func newVotes(n int) *Votes {
	v := &Votes{sum: make([]float64, n), n: make([]float64, n)}
	for i := 0; i < n; i++ {
		v.cat = append(v.cat, map[string]float64{})
	}
	return v
}

func (v *Votes) add(i int, pred string, w float64) {
	v.cat[i][pred] += w
	f, err := strconv.ParseFloat(pred, 64)
	if err != nil {
		v.bad++
		return
	}
	v.sum[i] += f * w
	v.n[i] += w
	if !math.IsInf(f, 0) {
		v.max = math.Max(v.max, math.Abs(f))
	}
}

// vote lets a tree vote on the given cases.
func (v *Votes) vote(t *TTree, d *Table, cases []int, w float64) error {
	for _, i := range cases {
		l, err := t.leaf(d, i)
		if err != nil {
			return err
		}
		if l != nil {
			v.add(i, l.Pred, w)
		}
	}
	return nil
}

// winners lists the categories that may win (nil: no votes).
func (v *Votes) winners(i int) map[string]bool {
	best := 0.0
	for _, w := range v.cat[i] {
		if w > best {
			best = w
		}
	}
	if best == 0 {
		return nil
	}
	m := map[string]bool{}
	for s, w := range v.cat[i] {
		if near(w, best, 1e-9) {
			m[s] = true
		}
	}
	return m
}

// right says whether case i is predicted to be s: 1 yes, 0 no, 0.5 when a tie leaves it open.
func (v *Votes) right(i int, s string) float64 {
	w := v.winners(i)
	switch {
	case !w[s]:
		return 0
	case len(w) > 1:
		return 0.5
	}
	return 1
}

// catError is the balanced error of predictions, as a range where ties leave it open.
func catError(tf *Feat, right func(i int, s string) float64) (lo, hi float64) {
	total, min, max := map[string]int{}, map[string]int{}, map[string]int{}
	for i := range tf.Miss {
		if tf.Miss[i] {
			continue
		}
		s := tf.Str[i]
		total[s]++
		if r := right(i, s); r > 0 {
			max[s]++
			if r == 1 {
				min[s]++
			}
		}
	}
	for s, n := range total {
		lo += float64(min[s]) / float64(n)
		hi += float64(max[s]) / float64(n)
	}
	return 1 - hi/float64(len(total)), 1 - lo/float64(len(total))
}

// numError is the mean squared error over the variance of the target.
func (v *Votes) numError(tf *Feat) float64 {
	var known []int
	for i := range tf.Miss {
		if !tf.Miss[i] {
			known = append(known, i)
		}
	}
	m := mean(tf, known)
	va := 0.0
	for _, i := range known {
		va += (tf.Val[i] - m) * (tf.Val[i] - m)
	}
	va /= float64(len(known))
	e, n := 0.0, 0
	for _, i := range known {
		if v.n[i] > 0 {
			d := tf.Val[i] - v.sum[i]/v.n[i]
			e += d * d
			n++
		}
	}
	if n == 0 {
		return math.NaN()
	}
	return e / float64(n) / va
}

// error is the error of the combined votes: a range, where ties leave it open.
func (v *Votes) error(tf *Feat) [2]float64 {
	if tf.Num {
		e := v.numError(tf)
		return [2]float64{e, e}
	}
	lo, hi := catError(tf, v.right)
	return [2]float64{lo, hi}
}

// within says whether a reported error is in the range.
func within(e float64, r [2]float64) bool {
	return sameNum(e, r[0]) || sameNum(e, r[1]) || e > r[0] && e < r[1]
}

// grab finds the numbers a report prints on lines matching re.
func grab(out []byte, re string) []float64 {
	var r []float64
	for _, m := range regexp.MustCompile("(?m)"+re).FindAllStringSubmatch(string(out), -1) {
		f, err := strconv.ParseFloat(m[1], 64)
		if err != nil {
			f = math.NaN()
		}
		r = append(r, f)
	}
	return r
}

// sameNum compares reported numbers; averages over few values may differ in their last digits, and variances that
// are zero up to rounding make ratios meaningless.
func sameNum(a, b float64) bool { return near(a, b, 1e-7) }

func tsv(b []byte) [][]string {
	var out [][]string
	s := string(b)
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		out = append(out, strings.Split(l, "\t"))
	}
	if s == "" {
		return nil
	}
	return out
}

// complement lists the cases that are not in the bag.
func complement(bag []int, n int) []int {
	in := make([]bool, n)
	for _, i := range bag {
		in[i] = true
	}
	var out []int
	for i, b := range in {
		if !b {
			out = append(out, i)
		}
	}
	return out
}

// goodTarget says whether the error of a run has a meaning: a numerical target that varies.
func goodTarget(tf *Feat) bool {
	if !tf.Num {
		return true
	}
	var known []int
	for i := range tf.Miss {
		if !tf.Miss[i] {
			known = append(known, i)
		}
	}
	for _, i := range known {
		if tf.Val[i] != tf.Val[known[0]] {
			return true
		}
	}
	return false
}

func runP04(x *Ctx, c *GF) {
	c.unique()
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	q.checkSaved(x)
	fin := q.final()
	weight := func(k int) float64 { return 1 }
	if c.Ada {
		// boosting drops a tree that leaves nothing to boost; what it keeps votes with its weight
		fin = q.Writes()
		weight = func(k int) float64 {
			if w := q.SF.Trees[k].Weight; w >= 0 {
				return w
			}
			x.Fail("no-weight", "boosted tree %d has no weight", k)
			return 0
		}
		if len(fin) == 0 {
			x.Count("boosting had nothing to do", 1)
			return
		}
		x.Count("boosted forests", 1)
	}
	if len(fin) == 0 {
		x.Fail("no-tree", "no tree was grown")
	}
	tab := fin[0].Tab
	tf := tab.get(c.T.target())
	n := len(tab.Cases)
	v := newVotes(n)
	var running [][2]float64
	for k, g := range fin {
		if err := v.vote(g.Snap, g.Tab, complement(g.Bag, n), weight(k)); err != nil {
			x.Fail("rules", "%v", err)
		}
		if c.Cores == 1 || len(fin) == 1 {
			running = append(running, v.error(tf))
		}
	}
	var said []string
	scale := 0.0
	for i, y := range tf.Val {
		if !tf.Miss[i] && math.Abs(y) > scale {
			scale = math.Abs(y)
		}
	}
	if c.Kind == "density" {
		scale = v.max
	}
	novote := 0
	for i := 0; i < n; i++ {
		if len(v.cat[i]) == 0 {
			novote++
		}
	}
	x.Count("cases with out of bag votes", n-novote)
	x.Count("cases without out of bag votes", novote)
	if c.OOBPreds {
		b, ok := q.FS.Get("oob.tsv")
		x.Check(ok, "no-file", "there is no out of bag prediction file")
		rows := tsv(b)
		x.Check(len(rows) == n, "rows", "%d rows of out of bag predictions for %d cases", len(rows), n)
		for i, row := range rows {
			if len(row) != 3 {
				x.Fail("row", "row %d of the out of bag predictions is %q", i, row)
			}
			if row[0] != tab.Cases[i] {
				x.Fail("label", "row %d is for case %q, expected %q", i, row[0], tab.Cases[i])
			}
			said = append(said, row[1])
			act := tf.GetStr(i)
			if row[2] != act {
				x.Fail("actual", "row %d gives the actual value %q, it is %q", i, row[2], act)
			}
			if tf.Num {
				if v.n[i] == 0 {
					if row[1] != "NA" {
						x.Fail("phantom", "case %d has no out of bag votes but the prediction %q", i, row[1])
					}
					continue
				}
				p, err := strconv.ParseFloat(row[1], 64)
				if want := v.sum[i] / v.n[i]; err != nil || !near(p, want, 0) && !(math.Abs(p-want) <= 1e-12*float64(10+len(fin))*scale) {
					x.Fail("mean", "case %d: out of bag prediction %s, the mean of its %v votes is %v", i, row[1], v.n[i], want)
				}
				continue
			}
			w := v.winners(i)
			if w == nil {
				if row[1] != "NA" {
					x.Fail("phantom", "case %d has no out of bag votes but the prediction %q", i, row[1])
				}
			} else if !w[row[1]] {
				x.Fail("winner", "case %d: out of bag prediction %q, its votes are %v", i, row[1], v.cat[i])
			}
		}
	}
	if !goodTarget(tf) {
		return
	}
	want := v.error(tf)
	if !tf.Num && said != nil {
		lo, hi := catError(tf, func(i int, s string) float64 {
			if said[i] == s {
				return 1
			}
			return 0
		})
		want = [2]float64{lo, hi}
	}
	got := grab(q.Res.Stdout, `^Out of Bag Error : (\S+)$`)
	x.Check(len(got) == 1, "report", "%d out of bag errors in the report", len(got))
	if !within(got[0], want) {
		x.Fail("error", "the reported out of bag error is %v, a recount of the votes gives %v", got[0], want)
	}
	if c.Progress && !c.Ada {
		p := grab(q.Res.Stdout, `^Model oob error after tree \d+ : (\S+)$`)
		k := grab(q.Res.Stdout, `^Model oob error after tree (\d+) :`)
		x.Check(len(p) == q.NGrow, "progress", "%d progress lines for %d trees", len(p), q.NGrow)
		for i := range k {
			if int(k[i]) != i%c.Trees+1 {
				x.Fail("progress", "progress line %d speaks of tree %v, expected %d", i, k[i], i%c.Trees+1)
			}
		}
		if last := p[len(p)-1]; !within(last, want) {
			x.Fail("running", "the running error after the last tree is %v, a recount gives %v", last, want)
		}
		p = p[len(p)-len(fin):]
		for i, w := range running {
			if !within(p[i], w) {
				x.Fail("running", "the running error after tree %d is %v, a recount of its votes and those before gives %v", i+1, p[i], w)
			}
		}
		x.Count("running errors", len(running))
	}
}

func init() {
	gen := func(r *sim.RNG) GF {
		c := genGF(r)
		c.OOB = true
		c.OOBPreds = r.Intn(4) > 0
		c.Progress = r.Intn(2) == 0
		c.Imp = r.Intn(6) == 0
		c.SelfTest = r.Intn(5) == 0
		return c
	}
	register(&Property{ID: "P04", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) GF { return gen(r) }, runP04, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.kind(r)
			return c
		}, runP04, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.ACE = 2 + r.Intn(2)
			c.Trees = 1 + r.Intn(5)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			}
			return c
		}, runP04, GF.shrinks),
		scen("boosted", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			for c.T.Target == "num" {
				c = gen(r)
			}
			c.boost(r)
			if c.GBT > 0 {
				c.GBT, c.Ada = 0, true
			}
			return c
		}, runP04, GF.shrinks),
	}})
}
