package main

import (
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Conv converts a data file with toafm, or anonymises or encodes a loaded table through the library.
type Conv struct {
	DJ
	SVM   bool     `json:"to_libsvm,omitempty"`
	Anon  bool     `json:"anon,omitempty"`
	Black []string `json:"blacklist,omitempty"`
	Lib   string   `json:"lib,omitempty"` // strip, onehot, num, svm, svmcases
}

func (c Conv) shrinks() []Conv {
	var out []Conv
	for _, j := range c.DJ.shrinks() {
		d := c
		d.DJ = j
		d.valid()
		out = append(out, d)
	}
	for _, f := range []func(*Conv){func(d *Conv) { d.SVM = false }, func(d *Conv) { d.Anon = false }, func(d *Conv) { d.Black = nil }} {
		d := c
		f(&d)
		d.valid()
		out = append(out, d)
	}
	return out
}

func (c *Conv) valid() {
	if c.SVM || strings.HasPrefix(c.Lib, "svm") {
		c.T.TMiss, c.Anon = 0, false // libsvm has no missing targets, an anonymised target another name
	}
	c.DJ.valid()
}

func (c *Conv) name() string {
	if c.Fmt == 3 {
		return "0"
	}
	return c.T.target()
}

// renamed says how a table differs from one given other names, the target first and the others in their order or
// the first in the target's place ("" if it does not).
func renamed(want, got *Table, target string) string {
	for i, f := range want.Feats {
		if f.Name == target {
			a, b := append([]*Feat(nil), want.Feats...), append([]*Feat(nil), want.Feats...)
			a[0], a[i] = a[i], a[0]
			copy(b[1:], want.Feats[:i])
			b[0] = f
			m := renamedTo(want, got, a)
			if m != "" && renamedTo(want, got, b) == "" {
				return ""
			}
			return m
		}
	}
	return renamedTo(want, got, want.Feats)
}

func renamedTo(want, got *Table, feats []*Feat) string {
	if len(got.Feats) != len(feats) {
		return "there are " + strconv.Itoa(len(got.Feats)) + " features, expected " + strconv.Itoa(len(feats))
	}
	w := &Table{Cases: numbered(len(want.Cases))}
	for i, f := range feats {
		g := *f
		g.Name = "N:" + strconv.Itoa(i)
		if !f.Num {
			g.Name = "C:" + strconv.Itoa(i)
			// one number below the number of categories for each category
			to, from := map[string]string{}, map[string]string{}
			g.Str = append([]string(nil), f.Str...)
			h := got.Feats[i]
			k := len(f.labels())
			for j, s := range f.Str {
				if f.Miss[j] || j >= len(h.Str) {
					continue
				}
				t := h.Str[j]
				if n, err := strconv.Atoi(t); err != nil || n < 0 || n >= k {
					return "feature " + f.Name + " has " + strconv.Itoa(k) + " categories, " + s + " becomes " + t
				}
				if o, ok := to[s]; ok && o != t {
					return "category " + s + " of feature " + f.Name + " becomes both " + o + " and " + t
				}
				if o, ok := from[t]; ok && o != s {
					return "categories " + s + " and " + o + " of feature " + f.Name + " both become " + t
				}
				to[s], from[t] = t, s
				g.Str[j] = t
			}
		}
		w.Feats = append(w.Feats, &g)
	}
	return sameTable(w, got)
}

// svmLines compares libsvm text with the table it is made of: the target, then every other feature, imputed, numbers
// as they are and an indicator for each category.
func svmLines(x *Ctx, tab *Table, target string, text []byte) {
	var cols []*Col
	var tc *Col
	for _, f := range tab.Feats {
		if f.Name == target {
			tc = f.col(false)
			continue
		}
		cols = append(cols, f.col(false).impute().encode()...)
	}
	s := strings.TrimSuffix(string(text), "\n")
	lines := strings.Split(s, "\n")
	if len(lines) != len(tab.Cases) {
		x.Fail("lines", "%d lines for %d cases", len(lines), len(tab.Cases))
	}
	for i, l := range lines {
		fields := strings.Split(l, " ")
		vals := map[int]string{}
		for _, f := range fields[1:] {
			p := strings.SplitN(f, ":", 2)
			j, err := strconv.Atoi(p[0])
			if err != nil || len(p) != 2 || j < 1 || j > len(cols) || vals[j] != "" {
				x.Fail("libsvm", "field %q in %q", f, tail(l, 300))
			}
			vals[j] = p[1]
		}
		for j, k := range cols {
			v := vals[j+1]
			if v == "" {
				v = "0"
			}
			if !k.cells[i].okNum(v) {
				x.Fail("value", "line %d, %s: %q is written, the table has %v", i+1, k.name, v, k.cells[i])
			}
		}
		if tc.num {
			if v, err := strconv.ParseFloat(fields[0], 64); err != nil || !near(v, tc.cells[i].val, 1e-5) {
				x.Fail("value", "line %d: target %q, the table has %v", i+1, fields[0], tc.cells[i])
			}
		} else if v, err := strconv.Atoi(fields[0]); err != nil || v < 0 || v >= len(tc.order) || tc.order[v] != tc.cells[i].strs[0] {
			x.Fail("value", "line %d: target class %q of %q, the table has %v", i+1, fields[0], tc.order, tc.cells[i])
		}
	}
	x.Count("tables written as libsvm", 1)
}

func runP26(x *Ctx, c *Conv) {
	name, b, want := c.build()
	if c.Lib != "" {
		runP26Lib(x, c, name, b, want)
		return
	}
	fs := sim.NewFS()
	fs.Put(name, b)
	target := c.name()
	a := []string{"-data", name, "-out", "out.fm"}
	if c.SVM {
		a = append(a, "-libsvmtarget", target)
	}
	if c.Anon {
		a = append(a, "-anontarget", target)
	}
	left := &Table{Cases: want.Cases}
	for _, f := range want.Feats {
		black := false
		for _, b := range c.Black {
			black = black || b == f.Name && !((c.SVM || c.Anon) && b == target)
		}
		if !black {
			left.Feats = append(left.Feats, f)
		}
	}
	if len(left.Feats) == 0 {
		x.Count("nothing left", 1)
		return
	}
	if len(c.Black) > 0 {
		fs.Put("black.txt", blackList(c.Black, c.T.Seed))
		a = append(a, "-blacklist", "black.txt")
	}
	x.MustEnd(x.Tool("utils/toafm", a, fs, nil), "toafm")
	out, ok := fs.Get("out.fm")
	x.Check(ok, "no-file", "toafm ended with status 0 but wrote no file")
	if c.SVM {
		svmLines(x, left, target, out)
		return
	}
	var fm *CF.FeatureMatrix
	var err error
	x.MustEnd(x.Lib(fs, nil, func() { fm, err = CF.LoadAFM("out.fm") }), "loading what toafm wrote")
	if err != nil || fm == nil {
		x.Fail("refused", "what toafm wrote does not load: %v: %q", err, tail(string(out), 300))
	}
	got := fromFM(fm)
	if c.Anon {
		if m := renamed(left, got, target); m != "" {
			x.Fail("anonymised", "the anonymised table is another one: %s", m)
		}
		x.Count("tables anonymised", 1)
		return
	}
	typed := &Table{Cases: left.Cases}
	for _, f := range left.Feats {
		g := *f
		if f.Num && !strings.HasPrefix(f.Name, "N:") {
			g.Name = "N:" + f.Name
		} else if !f.Num && !strings.HasPrefix(f.Name, "C:") && !strings.HasPrefix(f.Name, "B:") {
			g.Name = "C:" + f.Name
		}
		typed.Feats = append(typed.Feats, &g)
	}
	if m := sameTable(typed, got); m != "" {
		x.Fail("converted", "the converted table is another one: %s", m)
	}
	x.Count("tables converted", 1)
}

// runP26Lib changes a loaded table.
func runP26Lib(x *Ctx, c *Conv, name string, b []byte, want *Table) {
	fs := sim.NewFS()
	fs.Put(name, b)
	var fm, out *CF.FeatureMatrix
	var err error
	st := sim.NewStream(nil)
	nums := map[string]string{} // what the numbers of categories stand for
	x.MustEnd(x.Lib(fs, nil, func() {
		fm, err = CF.LoadAFM(name)
		if err != nil {
			return
		}
		switch c.Lib {
		case "svm":
			out = fm
			err = CF.WriteLibSvm(fm, c.name(), st)
		case "svmcases":
			out = fm
			all := make([]int, len(fm.CaseLabels))
			for i := range all {
				all[i] = i
			}
			err = CF.WriteLibSvmCases(fm, all, c.name(), st)
		case "strip":
			fm.StripStrings(c.name())
			out = fm
		case "onehot":
			out = fm.OneHot()
		default:
			out = fm.EncodeToNum()
		}
		for _, f := range out.Data {
			if cf, ok := f.(CF.CatFeature); ok {
				for i := 0; i < cf.NCats(); i++ {
					s := cf.NumToCat(i)
					if j := cf.CatToNum(s); j != i {
						nums[f.GetName()] = strconv.Itoa(i) + " stands for " + s + ", which has number " + strconv.Itoa(j)
					}
				}
			}
		}
	}), "changing a table")
	if err != nil {
		x.Fail("refused", "loading %s or changing it (%s) fails: %v", name, c.Lib, err)
	}
	for f, m := range nums {
		x.Fail("numbers", "feature %s: %s", f, m)
	}
	got := fromFM(out)
	for i, f := range got.Feats {
		if j, ok := out.Map[f.Name]; !ok || i != j {
			x.Fail("names", "the name %q leads to column %d (found %v), expected %d", f.Name, j, ok, i)
		}
	}
	if len(out.Map) != len(got.Feats) {
		x.Fail("names", "%d names for %d features", len(out.Map), len(got.Feats))
	}
	if c.Lib == "strip" {
		if m := renamed(want, got, c.name()); m != "" {
			x.Fail("anonymised", "the anonymised table is another one: %s", m)
		}
		x.Count("tables anonymised", 1)
		return
	}
	if m := sameTable(want, fromFM(fm)); m != "" {
		x.Fail("changed", "encoding a table changed it: %s", m)
	}
	if c.Lib == "svm" || c.Lib == "svmcases" {
		svmLines(x, want, c.name(), st.Buf)
		return
	}
	var cols []*Col
	for _, f := range want.Feats {
		if c.Lib == "onehot" {
			cols = append(cols, f.col(false).onehot()...)
		} else {
			cols = append(cols, f.col(false).encode()...)
		}
	}
	if len(cols) != len(got.Feats) {
		x.Fail("features", "the encoded table has %d features, expected %d", len(got.Feats), len(cols))
	}
	for i, k := range cols {
		f := got.Feats[i]
		if f.Name != k.name || f.Num != k.num || len(f.Miss) != len(k.cells) {
			x.Fail("features", "feature %d of the encoded table is %s with %d cases, expected %s with %d", i, f.Name, len(f.Miss), k.name, len(k.cells))
		}
		for j, e := range k.cells {
			if f.Miss[j] != e.miss || !e.miss && !e.okNum(f.GetStr(j)) {
				x.Fail("value", "case %d of encoded feature %s is %s, expected %v", j, k.name, f.GetStr(j), e)
			}
		}
	}
	x.Count("tables encoded", 1)
}

func init() {
	gen := func(r *sim.RNG) Conv {
		c := Conv{DJ: genDJ(r), SVM: r.Intn(4) == 0, Anon: r.Intn(3) == 0}
		c.Long = 0
		if r.Intn(3) == 0 {
			c.Black = []string{"N:num0", "C:cat0", "B:cat0", "nothere", "1"}[:1+r.Intn(5)]
			if r.Intn(3) == 0 {
				c.Black = append(c.Black, c.name())
			}
		}
		c.valid()
		return c
	}
	register(&Property{ID: "P26", Quick: 30000, Real: []string{"toafm", "data loading", "AFM and LibSVM writers", "anonymising and encoding of tables"}, Scenarios: []*Scenario{
		scen("convert", 3, func(r *sim.RNG, tier string) Conv { return gen(r) }, runP26, Conv.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) Conv {
			c := gen(r)
			c.Lib = []string{"strip", "onehot", "num", "svm", "svmcases"}[r.Intn(5)]
			c.valid()
			return c
		}, runP26, Conv.shrinks),
	}})
}
