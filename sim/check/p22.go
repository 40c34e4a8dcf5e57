package main

import (
	"math"
	"regexp"
	"strconv"

	"cfsim/sim"
)

// betaInc is the regularised incomplete beta function (Lentz's continued fraction).
func betaInc(a, b, x float64) float64 {
	if x <= 0 {
		return 0
	}
	if x >= 1 {
		return 1
	}
	if x > (a+1)/(a+b+2) {
		return 1 - betaInc(b, a, 1-x)
	}
	la, _ := math.Lgamma(a)
	lb, _ := math.Lgamma(b)
	lab, _ := math.Lgamma(a + b)
	front := math.Exp(lab-la-lb+a*math.Log(x)+b*math.Log(1-x)) / a
	const tiny = 1e-300
	f, c, d := 1.0, 1.0, 0.0
	for i := 0; i < 2000; i++ {
		m := float64(i / 2)
		var n float64
		switch {
		case i == 0:
			n = 1
		case i%2 == 0:
			n = m * (b - m) * x / ((a + 2*m - 1) * (a + 2*m))
		default:
			n = -(a + m) * (a + b + m) * x / ((a + 2*m) * (a + 2*m + 1))
		}
		d = 1 + n*d
		if math.Abs(d) < tiny {
			d = tiny
		}
		d = 1 / d
		c = 1 + n/c
		if math.Abs(c) < tiny {
			c = tiny
		}
		f *= c * d
		if math.Abs(1-c*d) < 1e-14 {
			break
		}
	}
	return front * (f - 1)
}

// welch is the one-sided p value of mean(a) > mean(b) and the mean of a. sound is false when the variances are
// too close to zero for the value to mean anything.
func welch(a, b []float64) (p, am float64, sound bool) {
	mv := func(x []float64) (m, v float64) {
		for _, y := range x {
			m += y
		}
		m /= float64(len(x))
		for _, y := range x {
			v += (y - m) * (y - m)
		}
		return m, v / float64(len(x)-1)
	}
	am, av := mv(a)
	bm, bv := mv(b)
	as, bs := av/float64(len(a)), bv/float64(len(b))
	s := as + bs
	if !(s > 1e-7*(am*am+bm*bm)) {
		return math.NaN(), am, false
	}
	t := (am - bm) / math.Sqrt(s)
	df := s * s / (as*as/float64(len(a)-1) + bs*bs/float64(len(b)-1))
	p = betaInc(df/2, 0.5, df/(t*t+df)) / 2
	if t <= 0 {
		p = 1 - p
	}
	return p, am, true
}

func runP22(x *Ctx, c *GF) {
	c.unique()
	c.Vet, c.EvalOOB, c.Imp = false, false, true
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	nr := c.ACE
	if c.Cutoff > 0 {
		nr++
	}
	if q.NGrow != nr*c.Trees {
		x.Fail("trees", "%d trees were grown, %d rounds of %d trees were asked for", q.NGrow, nr, c.Trees)
	}
	rounds := q.rounds()
	end := 0
	for k, gs := range rounds {
		last := 0
		for _, g := range gs {
			if g.Enter < end {
				x.Fail("barrier", "a tree of round %d was started before all trees of the round before were finished", k+1)
			}
			if g.Exit == 0 {
				x.Fail("unfinished", "a tree of round %d was never finished", k+1)
			}
			if g.Exit > last {
				last = g.Exit
			}
			if g.Tab != gs[0].Tab {
				x.Fail("shared-data", "the data changed while round %d was grown: %s", k+1, sameTable(gs[0].Tab, g.Tab))
			}
			q.checkCand(x, g, k == c.ACE)
			g.Snap.Root.each(0, func(n *TNode, _ int) {
				if n.Split && !q.allowed(n.Feat) {
					x.Fail("feature", "a tree of round %d splits on %s, which is excluded: %s", k+1, n.Feat, g.desc())
				}
			})
		}
		end = last
	}
	feats := rounds[0][0].Tab.Feats
	first := len(feats) / 2
	if first != len(q.Base.Feats) || len(feats) != 2*first {
		x.Fail("contrasts", "%d features and contrasts for %d features", len(feats), len(q.Base.Feats))
	}
	// contrasts are shuffled anew for each round
	for k := 1; k < c.ACE && x.execs[0].RandMode == 0; k++ {
		for i := first; i < 2*first; i++ {
			f, g := rounds[k-1][0].Tab.Feats[i], rounds[k][0].Tab.Feats[i]
			vals := map[float64]bool{}
			for j, v := range f.Val {
				if !f.Miss[j] {
					vals[v] = true
				}
			}
			if len(vals) >= 14 && q.allowed(f.Name) && sameFeat(f, g) == "" {
				x.Fail("contrast-kept", "the contrast %s is the same in rounds %d and %d", f.Name, k, k+1)
			}
		}
	}
	// scores per round
	score := make([][]float64, len(feats))
	for k := 0; k < c.ACE; k++ {
		sc := q.scores(x, rounds[k])
		for i, f := range feats {
			v := 0.0
			if s := sc[f.Name]; s != nil {
				v = s.Dec / float64(c.Trees)
			}
			score[i] = append(score[i], v)
		}
	}
	b, ok := q.FS.Get("imp.tsv")
	x.Check(ok, "no-file", "there is no importance file")
	rows := tsv(b)
	x.Check(len(rows) == first, "rows", "%d rows in the importance report for %d features", len(rows), first)
	sure, maybe := map[string]bool{}, map[string]bool{}
	for i := 0; i < first; i++ {
		row := rows[i]
		if len(row) != 4 || row[0] != c.T.target() || row[1] != feats[i].Name {
			x.Fail("row", "row %d of the report is %q, expected one for %s", i, row, feats[i].Name)
		}
		p, e1 := strconv.ParseFloat(row[2], 64)
		m, e2 := strconv.ParseFloat(row[3], 64)
		if e1 != nil || e2 != nil {
			x.Fail("row", "row %d of the report is %q", i, row)
		}
		wp, wm, sound := welch(score[i], score[i+first])
		if !near(m, wm, 1e-6) {
			x.Fail("mean", "%s: a mean score of %v is reported; the scores of its rounds are %v", feats[i].Name, m, score[i])
		}
		if sound {
			x.Count("p values compared", 1)
			if !near(p, wp, 1e-3) {
				x.Fail("p-value", "%s: a p value of %v is reported; its scores %v against its contrast's %v give %v", feats[i].Name, p, score[i], score[i+first], wp)
			}
			if q.allowed(feats[i].Name) && wm > -1e-9 && wp < c.Cutoff+2e-3 {
				maybe[feats[i].Name] = true
				if wm > 1e-9 && wp < c.Cutoff-2e-3 {
					sure[feats[i].Name] = true
				}
			}
		} else if q.allowed(feats[i].Name) && wm > 0 {
			maybe[feats[i].Name] = true
		}
	}
	if c.Cutoff > 0 {
		m := regexp.MustCompile(`(?m)^Growing non-ACE forest with (\d+) features`).FindAllStringSubmatch(string(q.Res.Stdout), -1)
		x.Check(len(m) == 1, "report", "%d reports on the features kept", len(m))
		n, _ := strconv.Atoi(m[0][1])
		if n < len(sure) || n > len(maybe) {
			x.Fail("kept", "%d features are reported to pass the cutoff; by their scores it is %d to %d: %v %v", n, len(sure), len(maybe), sure, maybe)
		}
		for _, g := range rounds[c.ACE] {
			if len(g.Cand) != n {
				x.Fail("candidates", "%d features are kept, but a final tree draws from %d", n, len(g.Cand))
			}
			for _, i := range g.Cand {
				if i >= first || !maybe[feats[i].Name] {
					x.Fail("insignificant", "a final tree draws from %s, which does not pass the cutoff", feats[i].Name)
				}
			}
			g.Snap.Root.each(0, func(n *TNode, _ int) {
				if n.Split && !maybe[n.Feat] {
					x.Fail("insignificant", "a final tree splits on %s, which does not pass the cutoff", n.Feat)
				}
			})
		}
		x.Count("features kept", n)
	} else {
		for _, gs := range rounds {
			for _, g := range gs {
				for _, i := range g.Cand {
					if !q.allowed(feats[i].Name) {
						x.Fail("candidates", "a tree draws from %s, which is excluded", feats[i].Name)
					}
				}
			}
		}
	}
	// only the last forest is saved
	q.checkSaved(x)
	fin := map[*Grow]bool{}
	for _, g := range q.final() {
		fin[g] = true
	}
	for _, g := range q.Writes() {
		if !fin[g] {
			x.Fail("saved", "a tree of an earlier round was saved")
		}
		delete(fin, g)
	}
	if len(fin) > 0 {
		x.Fail("saved", "%d trees of the last forest were not saved", len(fin))
	}
	x.Count("rounds", len(rounds))
}

func init() {
	register(&Property{ID: "P22", Quick: 10000, Real: growReal, Scenarios: []*Scenario{
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.ACE = 2 + r.Intn(4)
			c.Trees = 1 + r.Intn(7)
			c.OOB = r.Intn(4) == 0
			if r.Intn(2) == 0 {
				c.Cutoff = []float64{0.05, 0.3, 0.5, 0.9}[r.Intn(4)]
			}
			return c
		}, runP22, GF.shrinks),
	}})
}
