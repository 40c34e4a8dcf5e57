package main

import (
	"math"
	"strconv"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Boost is a gradient boosting run.
type Boost struct {
	GF
	Lib   bool `json:"lib,omitempty"`   // through GrowRandomForest
	Expit bool `json:"expit,omitempty"` // apply the forest with -expit
}

func (c Boost) shrinks() []Boost {
	var out []Boost
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		if d.GF.T.Target == "cat" {
			d.GF.T.TCats = 2
		}
		out = append(out, d)
	}
	if c.Expit {
		d := c
		d.Expit = false
		out = append(out, d)
	}
	return out
}

// round is what was seen of one boosting round.
type round struct {
	before, after []float64
	miss          []bool
	bag           []int
	snap          *TTree
	tab           *Table
	n             int // growths under way at entry
}

type residual interface {
	Get(i int) float64
	IsMissing(i int) bool
	Length() int
}

func residuals(t residual) ([]float64, []bool) {
	n := t.Length()
	v, m := make([]float64, n), make([]bool, n)
	for i := range v {
		v[i], m[i] = t.Get(i), t.IsMissing(i)
	}
	return v, m
}

func runP19(x *Ctx, c *Boost) {
	if c.Impute {
		c.T.Far = false // means may overflow
	}
	tab := c.T.Build()
	var rounds [256]*round
	n, under := 0, 0
	var target residual
	observe := func(a []any) func(t *CF.Tree) {
		r := &round{bag: copyInts(a[3].([]int)), n: under}
		under++
		if t, ok := a[2].(residual); ok {
			target = t
			r.before, r.miss = residuals(t)
		}
		r.tab = fromFM(a[1].(*CF.FeatureMatrix))
		if n < len(rounds) {
			rounds[n] = r
			n++
		}
		return func(t *CF.Tree) {
			under--
			if target != nil {
				r.after, _ = residuals(target)
			}
			r.snap = snapshot(t)
		}
	}
	fs := sim.NewFS()
	if c.Lib {
		nt := 0
		hook := func(name string, a []any) func() {
			if name == "Tree.Grow" {
				end := observe(a)
				return func() { end(a[0].(*CF.Tree)) }
			}
			return nil
		}
		sim.ProbeHook = hook
		res := x.Lib(fs, nil, func() {
			fm := CF.ParseAFM(sim.NewStream(tab.AFM(false, nil, true, false)))
			ti := fm.Map[c.T.target()]
			var tg CF.Target
			var can []int
			for i := range fm.Data {
				if i != ti {
					can = append(can, i)
				}
			}
			if c.T.Target == "num" {
				tg = CF.NewGradBoostTarget(fm.Data[ti].(CF.NumFeature), c.GBT)
			} else {
				tg = CF.NewGradBoostClassTarget(fm.Data[ti].(CF.CatFeature), c.GBT, c.positive())
			}
			leaf, _ := strconv.Atoi(c.LeafSize)
			mtry, _ := strconv.Atoi(c.MTry)
			f := CF.GrowRandomForest(fm, tg, can, c.T.Cases, mtry, c.Trees, leaf, c.MaxDepth, c.SplitM, c.Force, false, false, nil)
			nt = len(f.Trees)
			out := sim.NewStream(nil)
			w := CF.NewForestWriter(out)
			w.WriteForest(f)
			fs.Put("out.sf", out.Buf)
			fs.Put("data.afm", tab.AFM(false, nil, true, false))
		})
		sim.ProbeHook = nil
		x.MustEnd(res, "GrowRandomForest")
		if nt != c.Trees {
			x.Fail("trees", "%d trees, %d were asked for", nt, c.Trees)
		}
	} else {
		q := runGF(x, &c.GF, false, nil, func(q *GFRun) {
			fs = q.FS
			q.OnGrow = func(g *Grow, a []any) func() {
				end := observe(a)
				return func() { end(g.Tree) }
			}
		})
		x.MustEnd(q.Res, "growforest")
	}
	b, ok := fs.Get("out.sf")
	x.Check(ok, "no-forest", "there is no forest file")
	sf, err := parseSF(b)
	if err != nil {
		x.Fail("malformed", "the saved forest is malformed: %v\n%s", err, tail(string(b), 1500))
	}
	if n != c.Trees || len(sf.Trees) != n {
		x.Fail("trees", "%d trees were grown and %d saved, %d were asked for", n, len(sf.Trees), c.Trees)
	}
	if target == nil {
		x.Fail("target", "trees are not fitted to numerical residuals")
	}
	cat := c.T.Target == "cat"
	// the target as in the data (imputed, if asked for)
	tf := tab.get(c.T.target())
	y := make([]float64, len(tf.Miss))
	miss := make([]bool, len(tf.Miss))
	sum, known, scale := 0.0, 0.0, 1.0
	if cat {
		tf = rounds[0].tab.get(c.T.target())
	}
	for i := range y {
		miss[i] = tf.Miss[i]
		if miss[i] {
			continue
		}
		if cat {
			if tf.Str[i] == c.positive() {
				y[i] = 1
			}
		} else {
			y[i] = tf.Val[i]
		}
		sum += y[i]
		known++
		scale = math.Max(scale, math.Abs(y[i]))
	}
	inter := sum / known
	if c.Impute && !cat {
		for i := range y {
			if miss[i] {
				y[i], miss[i] = inter, false
			}
		}
	}
	if cat {
		inter = math.Log(sum / (known - sum))
	}
	if !near(sf.Intercept, inter, 1e-9) {
		x.Fail("intercept", "the forest has the intercept %v (present: %v), the data give %v", sf.Intercept, sf.HasInter, inter)
	}
	f := make([]float64, len(y))
	want := make([]float64, len(y))
	sure := make([]bool, len(y))
	for i := range f {
		f[i] = inter
		sure[i] = true
		if cat {
			want[i] = y[i] - 1/(1+math.Exp(-inter))
		} else {
			want[i] = y[i] - inter
		}
	}
	tol := func(i int) float64 { return 1e-8 * (scale + math.Abs(f[i])) }
	compare := func(k int, got []float64, gm []bool, when string) {
		for i := range want {
			if gm != nil && gm[i] != miss[i] {
				x.Fail("missing", "case %d: the target is known: %v; %s it is: %v", i, !miss[i], when, !gm[i])
			}
			if miss[i] || !sure[i] {
				continue
			}
			if !(math.Abs(got[i]-want[i]) <= tol(i)) {
				x.Fail("residual", "case %d: %s %d its residual is %v, expected %v", i, when, k, got[i], want[i])
			}
		}
	}
	for k := 0; k < n; k++ {
		r := rounds[k]
		if r.n != 0 {
			x.Fail("sequence", "tree %d is fitted while another one is", k)
		}
		if r.snap == nil {
			x.Fail("unfinished", "tree %d was never finished", k)
		}
		compare(k, r.before, r.miss, "when fitting tree")
		for i := range r.after {
			if r.after[i] != r.before[i] && !(math.IsNaN(r.after[i]) && math.IsNaN(r.before[i])) {
				x.Fail("touched", "case %d: the residual changed from %v to %v while tree %d was fitted", i, r.before[i], r.after[i], k)
			}
		}
		// leaves
		_, werr := r.snap.Root.levels(r.tab, r.bag, func(nd *TNode, cases, _, _, _ []int, _ int) {
			if nd.Split || len(cases) == 0 {
				return
			}
			num, den := 0.0, float64(len(cases))
			if cat {
				den = 0
			}
			for _, i := range cases {
				if miss[i] {
					x.Fail("bag-missing", "case %d, whose target is not known, is in the bag of tree %d", i, k)
				}
				num += r.before[i]
				if cat {
					p := y[i] - r.before[i]
					den += p * (1 - p)
				}
			}
			p, err := strconv.ParseFloat(nd.Pred, 64)
			if cat && den < 1e-6*float64(len(cases)) {
				if err != nil || math.IsNaN(p) || math.IsInf(p, 0) || den == 0 && p != 0 {
					x.Fail("leaf", "tree %d: a leaf predicts %s where its %d bag cases are predicted with certainty: %s", k, nd.Pred, len(cases), r.snap)
				}
				return // saturated: rounding decides
			}
			w := num / den
			if err != nil || !(math.Abs(p-w) <= 1e-6*(math.Abs(w)+scale*1e-3)) {
				x.Fail("leaf", "tree %d: a leaf predicts %s, the residuals of its %d bag cases give %v: %s", k, nd.Pred, len(cases), w, r.snap)
			}
			x.Count("leaves", 1)
		})
		if werr != nil {
			x.Fail("rules", "%v", werr)
		}
		// every case the tree routes to a leaf is updated once
		for i := range y {
			l, err := r.snap.leaf(r.tab, i)
			if err != nil {
				x.Fail("rules", "%v", err)
			}
			if l == nil || miss[i] {
				if l != nil {
					p, _ := strconv.ParseFloat(l.Pred, 64)
					f[i] += c.GBT * p
				}
				continue
			}
			p, err := strconv.ParseFloat(l.Pred, 64)
			if err != nil || math.IsNaN(p) || math.IsInf(p, 0) {
				sure[i] = false // a leaf no bag case reaches, or a saturated one
				continue
			}
			f[i] += c.GBT * p
			if cat {
				want[i] = y[i] - 1/(1+math.Exp(-f[i]))
			} else {
				want[i] = y[i] - f[i]
			}
		}
		if s, w := sf.Trees[k].Root.String(), r.snap.Root.String(); s != w {
			x.Fail("saved", "tree %d was grown as\n  %s\nand saved as\n  %s", k, tail(w, 700), tail(s, 700))
		}
		if !near(sf.Trees[k].Weight, c.GBT, 1e-12) {
			x.Fail("weight", "tree %d is saved with the weight %v, the learning rate is %v", k, sf.Trees[k].Weight, c.GBT)
		}
		x.Count("rounds", 1)
	}
	end, gm := residuals(target)
	compare(n, end, gm, "after tree")
	// applying the saved forest gives the boosted prediction
	args := []string{"-fm", "data.afm", "-rfpred", "out.sf", "-preds", "preds.tsv", "-sum"}
	if c.Expit {
		args = append(args, "-expit")
	}
	res := x.Tool("applyforest", args, fs, nil)
	x.MustEnd(res, "applyforest")
	pb, _ := fs.Get("preds.tsv")
	rows := tsv(pb)
	x.Check(len(rows) == len(y), "rows", "%d predictions for %d cases", len(rows), len(y))
	for i, row := range rows {
		if !sure[i] || c.ShufRE != "" {
			continue
		}
		p, err := strconv.ParseFloat(row[1], 64)
		w := f[i]
		if c.Expit {
			w = 1 / (1 + math.Exp(-w))
		}
		if c.Impute {
			continue // the data applied to aren't imputed
		}
		if err != nil || math.Abs(p-w) > tol(i) {
			x.Fail("applied", "case %d: the saved forest predicts %s, boosting predicted %v", i, row[1], w)
		}
		x.Count("predictions compared", 1)
	}
}

func init() {
	register(&Property{ID: "P19", Quick: 20000, Real: append([]string{"applyforest"}, growReal...), Scenarios: []*Scenario{
		scen("gbt", 4, func(r *sim.RNG, tier string) Boost {
			c := Boost{GF: genGF(r), Expit: r.Intn(3) == 0}
			tm, imp := c.T.TMiss, c.Impute
			ns := c.NSamples
			c.boost(r)
			c.T.TMiss, c.Impute = tm, imp
			if r.Intn(2) == 0 {
				c.NSamples = ns
			}
			c.Ada, c.Kind = false, ""
			c.GBT = []float64{0.1, 0.5, 1, 0.03, 0.25}[r.Intn(5)]
			if c.T.Target == "cat" {
				c.T.TCats = 2
			}
			c.Permute = false
			c.Contrast, c.ConAll = 0, false
			c.OOB = r.Intn(4) == 0
			c.Imp = r.Intn(4) == 0
			c.Progress = r.Intn(6) == 0
			c.Trees = 1 + r.Intn(12)
			c.Jungle = r.Intn(5) == 0
			return c
		}, runP19, Boost.shrinks),
		scen("lib", 1, func(r *sim.RNG, tier string) Boost {
			t := "num"
			if r.Intn(2) == 0 {
				t = "cat"
			}
			c := Boost{GF: GF{T: genTSpec(r, t), Trees: 1 + r.Intn(10), MaxDepth: r.Intn(4), MTry: strconv.Itoa(1 + r.Intn(4)), LeafSize: strconv.Itoa(1 + r.Intn(3)),
				SplitM: r.Intn(3) == 0, Force: r.Intn(4) == 0}, Lib: true, Expit: r.Intn(3) == 0}
			c.T.TMiss = 0
			c.T.TCats = 2
			c.GBT = []float64{0.1, 0.5, 1, 0.03}[r.Intn(4)]
			return c
		}, runP19, Boost.shrinks),
	}})
}
