package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// pairs lists a feature's (value, missing) pairs over cases.
func (f *Feat) pairs(cases []int) []string {
	var out []string
	for _, i := range cases {
		if f.Miss[i] {
			out = append(out, "\x00missing")
		} else {
			out = append(out, f.GetStr(i))
		}
	}
	sort.Strings(out)
	return out
}

// arrangements is the logarithm of the number of different orders of the values of a feature.
func (f *Feat) arrangements() float64 {
	count := map[string]int{}
	for _, v := range f.pairs(upto(len(f.Miss))) {
		count[v]++
	}
	l, _ := math.Lgamma(float64(len(f.Miss) + 1))
	for _, k := range count {
		m, _ := math.Lgamma(float64(k + 1))
		l -= m
	}
	return l
}

// shuffled says how got fails to be src in a drawn order ("" when it is one). Where draws are fair and there are so
// many orders it can't be the same one.
func (x *Ctx) shuffled(src, got *Feat) string {
	if m := permuted(src, got, upto(len(src.Miss))); m != "" {
		return m
	}
	if x.cur.RandMode == 0 && src.arrangements() > 35 {
		a := *got
		a.Name = src.Name
		if sameFeat(src, &a) == "" {
			return fmt.Sprintf("%s is still in the order of %s", got.Name, src.Name)
		}
		x.Count("shuffled orders", 1)
	}
	return ""
}

// imputed says how got fails to be want with its missing values replaced by the mean or a most frequent category.
func imputed(want, got *Feat) string {
	if want.Num != got.Num || len(want.Miss) != len(got.Miss) {
		return fmt.Sprintf("%s has become another kind of feature or has %d cases instead of %d", want.Name, len(got.Miss), len(want.Miss))
	}
	count, best, fill := map[string]int{}, 0, ""
	var known []int
	for i, m := range want.Miss {
		if !m {
			known = append(known, i)
			if !want.Num {
				count[want.Str[i]]++
				best = max(best, count[want.Str[i]])
			}
		}
	}
	scale := 0.0
	for _, i := range known {
		if want.Num {
			scale = math.Max(scale, math.Abs(want.Val[i]))
		}
	}
	for i, m := range want.Miss {
		switch {
		case !m:
			if a, b := want.pairs([]int{i})[0], got.pairs([]int{i})[0]; a != b {
				return fmt.Sprintf("%s: case %d isn't missing, but changed from %q to %q", want.Name, i, a, b)
			}
		case len(known) == 0:
		case got.Miss[i]:
			return fmt.Sprintf("%s: case %d is still missing", want.Name, i)
		case want.Num:
			if e := mean(want, known); !(math.Abs(got.Val[i]-e) <= 1e-9*scale) {
				return fmt.Sprintf("%s: case %d got the value %v, the mean is %v", want.Name, i, got.Val[i], e)
			}
		default:
			if fill == "" {
				fill = got.Str[i]
			}
			if count[got.Str[i]] != best || got.Str[i] != fill {
				return fmt.Sprintf("%s: case %d got the category %q, another one %q; %d of %d cases have the first", want.Name, i, got.Str[i], fill, count[got.Str[i]], len(known))
			}
		}
	}
	return ""
}

func upto(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// permuted says how got fails to be a shuffle of want confined to cases ("" when it is one).
func permuted(want, got *Feat, cases []int) string {
	if want.Num != got.Num || len(want.Miss) != len(got.Miss) {
		return fmt.Sprintf("%s has become another kind of feature or has %d cases instead of %d", want.Name, len(got.Miss), len(want.Miss))
	}
	in := make([]bool, len(want.Miss))
	set := []int{}
	for _, i := range cases {
		if !in[i] {
			in[i] = true
			set = append(set, i)
		}
	}
	sort.Ints(set)
	for i := range in {
		if in[i] {
			continue
		}
		a, b := want.pairs([]int{i})[0], got.pairs([]int{i})[0]
		if a != b {
			return fmt.Sprintf("%s: case %d, which is not to be shuffled, changed from %q to %q", want.Name, i, a, b)
		}
	}
	a, b := want.pairs(set), got.pairs(set)
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s: the values of the shuffled cases were %q and are %q", want.Name, a, b)
		}
	}
	return ""
}

// Shuf exercises shuffles and contrasts of the library.
type Shuf struct {
	T     TSpec  `json:"t"`
	Op    string `json:"op"` // shuffle, cases, copy, contrasts, all, vet
	F     int    `json:"f"`
	Sub   uint64 `json:"sub,omitempty"` // seed of the subset of cases
	Rep   bool   `json:"rep,omitempty"` // cases may be named more than once, as in a bag
	Reps  int    `json:"reps"`
	N     int    `json:"n,omitempty"`
	Tasks int    `json:"tasks,omitempty"`
}

func genShuf(r *sim.RNG) Shuf {
	t := "num"
	if r.Intn(2) == 0 {
		t = "cat"
	}
	c := Shuf{T: genTSpec(r, t), Op: []string{"shuffle", "cases", "cases", "copy", "contrasts", "all", "vet"}[r.Intn(7)], F: r.Intn(9), Reps: 1 + r.Intn(4), N: 1 + r.Intn(6)}
	c.Sub = 1 + r.Next()%100000
	c.Rep = r.Intn(3) == 0
	if (c.Op == "shuffle" || c.Op == "cases" || c.Op == "copy") && r.Intn(6) == 0 {
		c.Reps = 400 + r.Intn(600)
		c.T.Cases = 4 + r.Intn(8)
	}
	if c.Op == "vet" {
		c.Tasks = 2 + r.Intn(4)
	}
	return c
}

func (c Shuf) shrinks() []Shuf {
	var out []Shuf
	try := func(f func(*Shuf)) { d := c; f(&d); out = append(out, d) }
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *Shuf) { d.T = t })
	}
	if c.Reps > 1 {
		try(func(d *Shuf) { d.Reps-- })
	}
	if c.Tasks > 2 {
		try(func(d *Shuf) { d.Tasks-- })
	}
	if c.N > 1 {
		try(func(d *Shuf) { d.N-- })
	}
	try(func(d *Shuf) { d.Rep = false })
	return out
}

func runP21(x *Ctx, c *Shuf) {
	tab := c.T.Build()
	fi := c.F % len(tab.Feats)
	n := len(tab.Cases)
	var cases []int
	r := &sim.RNG{S: c.Sub}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			cases = append(cases, i)
			if c.Rep && r.Intn(3) == 0 {
				cases = append(cases, i)
			}
		}
	}
	for i := range cases {
		j := r.Intn(i + 1)
		cases[i], cases[j] = cases[j], cases[i]
	}
	problem := [32]string{}
	fail := func(k int, format string, a ...any) {
		if problem[k] == "" {
			problem[k] = fmt.Sprintf(format, a...)
		}
	}
	untouched := func(k int, fm *CF.FeatureMatrix, except int) {
		for i, f := range tab.Feats {
			if i != except {
				if m := sameFeat(f, fromFeature(fm.Data[i])); m != "" {
					fail(k, "real data changed: %s", m)
				}
			}
		}
		if len(fm.CaseLabels) != n {
			fail(k, "%d case labels for %d", len(fm.CaseLabels), n)
		}
	}
	// how often the value of each case ends up in each place
	var where [][]int
	if c.Reps > 300 {
		for i := 0; i < n; i++ {
			where = append(where, make([]int, n))
		}
	}
	res := x.Lib(nil, func(o *sim.Options) {
		if c.Tasks > 0 {
			busy(o)
		}
		if c.Reps > 300 {
			o.RandMode = 0
		}
	}, func() {
		fm := CF.ParseAFM(sim.NewStream(tab.AFM(false, nil, true, false)))
		if fm == nil {
			fail(0, "the data can't be parsed")
			return
		}
		switch c.Op {
		case "shuffle", "cases", "copy":
			all := upto(n)
			alloc := CF.NewBestSplitAllocs(n, fm.Data[fm.Map[c.T.target()]].(CF.Target))
			if where != nil { // give every case its own value to follow
				cf := fm.Data[fi]
				if nf, ok := cf.(*CF.DenseNumFeature); ok {
					for i := 0; i < n; i++ {
						nf.NumData[i], nf.Missing[i] = float64(i), i%3 == 0
					}
				} else {
					where = nil
				}
			}
			for k := 0; k < c.Reps; k++ {
				f := fm.Data[fi]
				before := fromFeature(f)
				switch c.Op {
				case "shuffle":
					f.Shuffle()
					if m := permuted(before, fromFeature(f), all); m != "" {
						fail(0, "shuffle: %s", m)
					}
				case "cases":
					cs := copyInts(cases)
					f.ShuffleCases(&cs, alloc)
					if m := permuted(before, fromFeature(f), cases); m != "" {
						fail(0, "shuffle of the cases %v: %s", cases, m)
					}
					a, b := copyInts(cs), copyInts(cases)
					sort.Ints(a)
					sort.Ints(b)
					if fmt.Sprint(a) != fmt.Sprint(b) {
						fail(0, "the cases %v became %v", cases, cs)
					}
				default:
					g := f.ShuffledCopy()
					after := fromFeature(g)
					if m := permuted(before, after, all); m != "" {
						fail(0, "shuffled copy: %s", m)
					}
					if g.GetName() != f.GetName()+":SHUFFLED" {
						fail(0, "the shuffled copy of %s is named %s", f.GetName(), g.GetName())
					}
					if f.MissingVals() != g.MissingVals() {
						fail(0, "%s has missing values: %v, its shuffled copy: %v", f.GetName(), f.MissingVals(), g.MissingVals())
					}
					// the copy is independent
					g.Shuffle()
					g.PutMissing(0)
					if m := sameFeat(before, fromFeature(f)); m != "" {
						fail(0, "changing a shuffled copy changed the feature: %s", m)
					}
					f = g
				}
				if f.Length() != n || where == nil && f.IsMissing(0) && !f.MissingVals() {
					fail(0, "length %d for %d cases, or missing values not announced", f.Length(), n)
				}
				if where != nil {
					g := f.(*CF.DenseNumFeature)
					if c.Op == "copy" {
						g = fm.Data[fi].ShuffledCopy().(*CF.DenseNumFeature)
					}
					for i, v := range g.NumData {
						where[int(v)][i]++
						if g.Missing[i] != (int(v)%3 == 0) {
							fail(0, "the value of a known case is marked missing after a shuffle, or the reverse")
						}
					}
					for i := 0; i < n; i++ {
						fm.Data[fi].(*CF.DenseNumFeature).NumData[i], fm.Data[fi].(*CF.DenseNumFeature).Missing[i] = float64(i), i%3 == 0
					}
				}
			}
			if c.Op == "copy" && where == nil {
				untouched(0, fm, -1)
			} else {
				untouched(0, fm, fi)
			}
		case "contrasts", "all":
			if c.Op == "all" {
				fm.ContrastAll()
			} else {
				fm.AddContrasts(c.N)
			}
			real := len(tab.Feats)
			add := c.N
			if c.Op == "all" {
				add = real
			}
			if len(fm.Data) != real+add {
				fail(0, "%d features after adding %d contrasts to %d", len(fm.Data), add, real)
				return
			}
			untouched(0, fm, -1)
			for i := real; i < len(fm.Data); i++ {
				name := fm.Data[i].GetName()
				o := strings.TrimSuffix(name, ":SHUFFLED")
				src := tab.get(o)
				if src == nil || name == o {
					fail(0, "a contrast is named %s", name)
					return
				}
				if c.Op == "all" && src != tab.Feats[i-real] {
					fail(0, "contrast %d is one of %s", i-real, o)
				}
				if m := permuted(src, fromFeature(fm.Data[i]), upto(n)); m != "" {
					fail(0, "contrast: %s", m)
				}
				j, ok := fm.Map[name]
				if !ok || j < real || fm.Data[j].GetName() != name {
					fail(0, "the name %s leads to column %d (%v)", name, j, ok)
				}
			}
			for i, f := range tab.Feats {
				if fm.Map[f.Name] != i {
					fail(0, "the name %s leads to column %d, it is in %d", f.Name, fm.Map[f.Name], i)
				}
			}
			// contrasts are independent of the features and of each other
			for i := real; i < len(fm.Data); i++ {
				fm.Data[i].Shuffle()
				fm.Data[i].PutMissing(n - 1)
			}
			untouched(0, fm, -1)
		case "vet":
			// workers permute the target in their own scratch space while they look for splits
			target := fm.Data[fm.Map[c.T.target()]].(CF.Target)
			var wg sim.WaitGroup
			wg.Add(c.Tasks)
			for k := 0; k < c.Tasks; k++ {
				k := k
				sim.Go(func() {
					defer wg.Done()
					a := CF.NewBestSplitAllocs(n, target)
					for j := 0; j < c.Reps; j++ {
						target.(CF.Feature).CopyInTo(a.ContrastTarget.(CF.Feature))
						if m := sameFeat(tab.get(c.T.target()), fromFeature(a.ContrastTarget.(CF.Feature))); m != "" {
							fail(k, "worker %d: the copy of the target differs from it: %s", k, m)
						}
						cs := copyInts(cases)
						a.ContrastTarget.(CF.Feature).ShuffleCases(&cs, a)
						if m := permuted(tab.get(c.T.target()), fromFeature(a.ContrastTarget.(CF.Feature)), cases); m != "" {
							fail(k, "worker %d: %s", k, m)
						}
					}
				})
			}
			wg.Wait()
			untouched(0, fm, -1)
		}
	})
	x.MustEnd(res, "shuffling")
	for _, m := range problem {
		if m != "" {
			x.Fail("shuffle", "%s", m)
		}
	}
	x.Count(c.Op, c.Reps)
	if where != nil && x.execs[0].RandMode == 0 && !c.Rep {
		in := make([]bool, n)
		set := upto(n)
		if c.Op == "cases" {
			set = cases
		}
		for _, i := range set {
			in[i] = true
		}
		p := make([]float64, n)
		for i := range p {
			if in[i] {
				p[i] = 1 / float64(len(set))
			}
		}
		for i := range where {
			if in[i] {
				x.fair(fmt.Sprintf("places of the value of case %d", i), where[i], p, c.Reps, func(j int) string { return fmt.Sprintf("place %d", j) })
			}
		}
	}
}

// runP21Grow checks that growing leaves the real data alone.
func runP21Grow(x *Ctx, c *GF) {
	var problem [64]string
	var base *Table
	seen := 0
	q := runGF(x, c, false, nil, func(q *GFRun) {
		base = q.Base
		q.OnGrow = func(g *Grow, a []any) func() {
			fm := a[1].(*CF.FeatureMatrix)
			look := func(when string) {
				seen++
				for i, f := range base.Feats {
					if i >= len(fm.Data) || fm.Data[i].GetName() != f.Name {
						problem[g.G&63] = fmt.Sprintf("%s: feature %d is not %s any more", when, i, f.Name)
						return
					}
					got := fromFeature(fm.Data[i])
					m := ""
					if c.Impute && f.missing() > 0 {
						if !(c.Permute && f.Name == c.T.target() || c.ShufRE != "" && strings.Contains(f.Name, c.ShufRE)) {
							m = imputed(f, got)
						}
					} else if c.Permute && f.Name == c.T.target() || c.ShufRE != "" && f.Name != c.T.target() && strings.Contains(f.Name, c.ShufRE) {
						m = x.shuffled(f, got)
					} else {
						m = sameFeat(f, got)
					}
					if m != "" && problem[g.G&63] == "" {
						problem[g.G&63] = when + ": " + m
					}
				}
				n := len(base.Feats) + c.Contrast
				if c.ConAll {
					n *= 2
				}
				if c.ACE > 0 {
					n *= 2
				}
				if len(fm.Data) != n {
					problem[g.G&63] = fmt.Sprintf("%s: %d features and contrasts, expected %d", when, len(fm.Data), n)
					return
				}
				copies := map[string]int{}
				for i := len(base.Feats); i < len(fm.Data); i++ {
					copies[fm.Data[i].GetName()]++
				}
				for _, f := range base.Feats {
					if (c.ConAll || c.ACE > 0) && copies[f.Name+":SHUFFLED"] == 0 {
						problem[g.G&63] = fmt.Sprintf("%s: %s has no contrast", when, f.Name)
						return
					}
				}
				for i := len(base.Feats); i < len(fm.Data); i++ {
					got := fromFeature(fm.Data[i])
					src := base.get(strings.ReplaceAll(got.Name, ":SHUFFLED", "")) // contrasts may have contrasts
					if src == nil || src.Name == got.Name {
						problem[g.G&63] = fmt.Sprintf("%s: %s is neither a feature nor a contrast", when, got.Name)
						return
					}
					if c.Impute && src.missing() > 0 { // from the contrast's own values
						continue
					}
					if m := x.shuffled(src, got); m != "" && problem[g.G&63] == "" {
						problem[g.G&63] = when + ": contrast: " + m
					}
				}
			}
			look("when a tree was begun")
			return func() { look("when a tree was finished") }
		}
	})
	x.MustEnd(q.Res, "growforest")
	for _, m := range problem {
		if m != "" {
			x.Fail("data", "%s", m)
		}
	}
	if seen == 0 {
		x.Fail("no-tree", "no tree was grown")
	}
	x.Count("looks at the data", seen)
}

func init() {
	register(&Property{ID: "P21", Quick: 20000, Real: append([]string{"shuffles and contrasts"}, growReal...), Scenarios: []*Scenario{
		scen("shuffle", 3, func(r *sim.RNG, tier string) Shuf { return genShuf(r) }, runP21, Shuf.shrinks),
		scen("grow", 2, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.Impute = r.Intn(6) == 0
			c.Cores = 1 + r.Intn(5)
			switch r.Intn(4) {
			case 0:
				c.Vet = true
				c.EvalOOB = r.Intn(2) == 0
			case 1:
				c.ACE = 2 + r.Intn(2)
				c.Trees = 1 + r.Intn(5)
				c.Vet = r.Intn(2) == 0
			case 2:
				c.Contrast, c.ConAll = r.Intn(6), r.Intn(3) == 0
				c.Vet = r.Intn(2) == 0
			default:
				c.kind(r)
				c.Vet = r.Intn(2) == 0
				c.valid()
			}
			if r.Intn(4) == 0 { // enough cases for an order to be told from another
				c.T.Cases = 20 + r.Intn(30)
				c.Permute = r.Intn(3) == 0
				c.valid()
			}
			c.OOB = r.Intn(3) == 0
			c.Imp = r.Intn(3) == 0
			c.SelfTest = r.Intn(4) == 0
			return c
		}, runP21Grow, GF.shrinks),
	}})
}
