package main

import (
	"fmt"
	"math"
	"regexp"

	"cfsim/sim"
)

// tally is the range a count may have where ties between classes leave the winner open.
type tally struct{ lo, hi int }

func (t *tally) add(sure, possible bool) {
	if sure {
		t.lo++
	}
	if possible {
		t.hi++
	}
}

func (t tally) has(v float64) bool { return v >= float64(t.lo) && v <= float64(t.hi) }

// ratio extracts "a / b = c" printed after a text.
func ratio(x *Ctx, out []byte, text string) (a, b float64, ok bool) {
	re := "^" + regexp.QuoteMeta(text) + ` (\S+) / (\S+) = (\S+)$`
	m := regexp.MustCompile("(?m)"+re).FindAllStringSubmatch(string(out), -1)
	if len(m) == 0 {
		return
	}
	if len(m) > 1 {
		x.Fail("report", "%q is reported %d times", text, len(m))
	}
	var c float64
	if n, _ := fmt.Sscan(m[0][1], &a); n != 1 {
		x.Fail("report", "%q", m[0][0])
	}
	if n, _ := fmt.Sscan(m[0][2], &b); n != 1 {
		x.Fail("report", "%q", m[0][0])
	}
	if n, _ := fmt.Sscan(m[0][3], &c); n != 1 {
		x.Fail("report", "%q", m[0][0])
	}
	if !near(c, a/b, 1e-9) {
		x.Fail("report", "%q does not add up", m[0][0])
	}
	return a, b, true
}

func runP06(x *Ctx, c *GF) {
	c.unique()
	if c.Test != 0 {
		c.Contrast, c.ConAll = 0, false
	} else {
		c.SelfTest = true
	}
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	q.load(x)
	if len(q.Grows()) == 0 {
		x.Fail("no-tree", "no tree was grown")
	}
	tab := q.Grows()[0].Tab
	if c.Test != 0 {
		tab = testTable(q.Base, c.Test)
	}
	tf := tab.get(c.T.target())
	if c.GBT > 0 && c.Test == 0 {
		tf = q.Base.get(c.T.target()) // the trees have residuals in its place
	}
	n := len(tab.Cases)
	v := newVotes(n)
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	for _, t := range q.SF.Trees {
		w := 1.0
		if t.Weight >= 0 {
			w = t.Weight
		}
		if err := v.vote(t, tab, all, w); err != nil {
			x.Fail("rules", "%v", err)
		}
	}
	x.Count("trees tested", len(q.SF.Trees))
	known := 0
	for i := range tf.Miss {
		if !tf.Miss[i] {
			known++
		}
	}
	got := grab(q.Res.Stdout, `^Error: (\S+)$`)
	x.Check(len(got) == 1, "report", "%d self-test errors are reported", len(got))
	if known > 0 && goodTarget(tf) {
		if want := v.error(tf); !within(got[0], want) {
			x.Fail("error", "the self-test reports the error %v; letting each of the %d saved trees vote once on each of the %d cases gives %v", got[0], len(q.SF.Trees), n, want)
		}
	}
	if tf.Num {
		return
	}
	var correct, nas tally
	pred, falses := map[string]*tally{}, map[string]*tally{}
	truth, hits := map[string]int{}, map[string]*tally{}
	for _, l := range tf.labels() {
		pred[l], falses[l], hits[l] = &tally{}, &tally{}, &tally{}
	}
	for i := range tf.Miss {
		if tf.Miss[i] {
			continue
		}
		w := v.winners(i)
		truth[tf.Str[i]]++
		nas.add(w == nil, w == nil)
		for l := range w {
			sure := len(w) == 1
			if l == tf.Str[i] {
				correct.add(sure, true)
				hits[l].add(sure, true)
			}
			if pred[l] != nil {
				pred[l].add(sure, true)
				if l != tf.Str[i] {
					falses[l].add(sure, true)
				}
			}
		}
	}
	a, b, ok := ratio(x, q.Res.Stdout, "Classified:")
	x.Check(ok, "report", "no classification count is reported")
	if b != float64(known) {
		x.Fail("cases", "the self-test classified %v cases, %d have a known class", b, known)
	}
	if !correct.has(a) {
		x.Fail("classified", "%v of %v cases are reported to be classified correctly, the votes of the saved trees give %v", a, b, correct)
	}
	for _, l := range tf.labels() {
		a, b, ok := ratio(x, q.Res.Stdout, "Label "+l+" Percision (Actuall/Predicted):")
		x.Check(ok, "report", "no precision is reported for %q", l)
		if !falses[l].has(a) || !pred[l].has(b) {
			x.Fail("precision", "label %s: %v false of %v predictions are reported, the votes give %v of %v", l, a, b, *falses[l], *pred[l])
		}
		a, b, ok = ratio(x, q.Res.Stdout, "Label "+l+" Missed/Actuall Rate:")
		x.Check(ok, "report", "no miss rate is reported for %q", l)
		m := tally{truth[l] - hits[l].hi, truth[l] - hits[l].lo}
		if !m.has(a) || b != float64(truth[l]) {
			x.Fail("missed", "label %s: %v missed of %v are reported, the votes give %v of %d", l, a, b, m, truth[l])
		}
	}
	na := grab(q.Res.Stdout, `^Couldn't predict (\d+) cases due to missing values.$`)
	said := 0.0
	if len(na) > 0 {
		said = na[0]
	}
	if !nas.has(said) || math.IsNaN(said) {
		x.Fail("unpredicted", "%v cases are reported to be without prediction, %d are", said, nas.lo)
	}
	x.Count("cases without prediction", nas.lo)
}

func init() {
	gen := func(r *sim.RNG) GF {
		c := genGF(r)
		c.OOB = r.Intn(4) == 0
		c.Imp = r.Intn(6) == 0
		c.Progress = r.Intn(6) == 0
		if r.Intn(2) == 0 {
			c.Test = 1 + r.Next()%1000000
			c.SelfTest = r.Intn(2) == 0
		}
		return c
	}
	register(&Property{ID: "P06", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		scen("plain", 4, func(r *sim.RNG, tier string) GF { return gen(r) }, runP06, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.kind(r)
			return c
		}, runP06, GF.shrinks),
		scen("adaboost", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.boost(r)
			c.GBT = 0
			if c.Kind == "" {
				c.Ada = true
			}
			return c
		}, runP06, GF.shrinks),
		scen("gbt", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.boost(r)
			c.Kind, c.Ada = "", false
			c.GBT = []float64{0.1, 0.5, 1, 0.3}[r.Intn(4)]
			c.Permute = false
			if c.T.Target == "cat" {
				c.T.TCats = 2
			}
			return c
		}, runP06, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := gen(r)
			c.Test = 0
			c.ACE = 2 + r.Intn(2)
			c.Trees = 1 + r.Intn(5)
			c.Cutoff = 0.5
			return c
		}, runP06, GF.shrinks),
	}})
}
