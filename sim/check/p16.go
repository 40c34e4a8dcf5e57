package main

import (
	"strconv"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Load reads a data file or stream, and maybe writes cases of it out again.
type Load struct {
	DJ
	How   int    `json:"how"` // 0: a stream, 1: a file, 2: a stream in another order of chunks on top of another reader
	EOF   bool   `json:"eof,omitempty"`
	Zero  bool   `json:"zero,omitempty"`
	Write string `json:"write,omitempty"` // afm, arff, libsvm, libsvmcases
	Sel   uint64 `json:"sel,omitempty"`
	Again bool   `json:"again,omitempty"` // load again through a file
}

func (c Load) shrinks() []Load {
	var out []Load
	for _, j := range c.DJ.shrinks() {
		d := c
		d.DJ = j
		out = append(out, d)
	}
	for _, f := range []func(*Load){func(d *Load) { d.EOF = false }, func(d *Load) { d.Zero = false }, func(d *Load) { d.Again = false }, func(d *Load) { d.Write = "" }, func(d *Load) { d.Sel = 0 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

// selection draws cases: some or all, in any order, now and then one twice.
func selection(seed uint64, n int) []int {
	r := &sim.RNG{S: sim.Mix(seed, 17)}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if seed == 0 {
		return all
	}
	if r.Intn(3) > 0 {
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			all[i], all[j] = all[j], all[i]
		}
	}
	all = all[:1+r.Intn(n)]
	if r.Intn(4) == 0 {
		all = append(all, all[0])
	}
	return all
}

func numbered(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, strconv.Itoa(i))
	}
	return l
}

func runP16(x *Ctx, c *Load) {
	name, b, want := c.build()
	fs := sim.NewFS()
	fs.Put(name, b)
	var fm *CF.FeatureMatrix
	var err error
	in := sim.NewStream(append([]byte(nil), b...))
	in.WithEOF, in.Zero = c.EOF, c.Zero
	res := x.Lib(fs, nil, func() {
		if c.How == 1 || c.Zip {
			fm, err = CF.LoadAFM(name)
		} else {
			fm = c.parse(in)
		}
	})
	what := "loading " + name
	x.MustEnd(res, what)
	if err != nil || fm == nil {
		x.Fail("refused", "%s fails: %v", what, err)
	}
	if m := checkFM(want, fm); m != "" {
		x.Fail("loaded", "%s gives another table: %s", what, m)
	}
	if fs.OpenFiles() != 0 {
		x.Fail("leak", "%d files are still open after loading", fs.OpenFiles())
	}
	x.Count("tables loaded", 1)
	if c.Write == "" {
		return
	}
	// write cases out and load them again
	cases := selection(c.Sel, len(want.Cases))
	if c.Write == "libsvm" {
		cases = selection(0, len(want.Cases))
	}
	sub := want.subset(cases)
	target := c.T.target()
	if c.Fmt == 3 {
		target = "0"
	}
	st := sim.NewStream(nil)
	var werr error
	res = x.Lib(fs, nil, func() {
		switch c.Write {
		case "afm":
			werr = fm.WriteCases(st, cases)
		case "arff":
			werr = CF.WriteArffCases(fm, cases, "sim", st)
		case "libsvm":
			werr = CF.WriteLibSvm(fm, target, st)
		default:
			werr = CF.WriteLibSvmCases(fm, cases, target, st)
		}
	})
	x.MustEnd(res, "writing cases as "+c.Write)
	if werr != nil {
		x.Fail("write", "writing cases as %s fails: %v", c.Write, werr)
	}
	if m := checkFM(want, fm); m != "" {
		x.Fail("changed", "writing cases as %s changed the table in memory: %s", c.Write, m)
	}
	out := "out.afm"
	d := DJ{Fmt: 0}
	switch c.Write {
	case "arff":
		out, d.Fmt = "out.arff", 2
		sub = &Table{Feats: sub.Feats, Cases: numbered(len(cases))}
	case "libsvm", "libsvmcases":
		out, d.Fmt = "out.libsvm", 3
		sub.Cases = numbered(len(cases))
		sub = libsvmTable(sub, target)
	}
	var fm2 *CF.FeatureMatrix
	back := sim.NewStream(append([]byte(nil), st.Buf...))
	back.WithEOF, back.Zero = c.EOF, c.Zero
	fs.Put(out, st.Buf)
	res = x.Lib(fs, nil, func() {
		if c.Again {
			fm2, err = CF.LoadAFM(out)
		} else {
			fm2 = d.parse(back)
		}
	})
	x.MustEnd(res, "loading what was written as "+c.Write)
	if err != nil || fm2 == nil {
		x.Fail("refused", "loading what was written as %s fails: %v: %q", c.Write, err, tail(string(st.Buf), 300))
	}
	if d.Fmt == 3 {
		got := fromFM(fm2)
		libsvmSame(x, sub, got, st.Buf)
	} else if m := checkFM(sub, fm2); m != "" {
		x.Fail("round-trip", "cases %v written as %s and loaded again: %s", cases, c.Write, m)
	}
	x.Count("written as "+c.Write, 1)
}

// libsvmSame compares what libsvm can carry: the target's type is guessed from its text and its classes are
// renumbered.
func libsvmSame(x *Ctx, want, got *Table, text []byte) {
	if len(got.Feats) == 0 {
		x.Fail("round-trip", "nothing was loaded from %q", tail(string(text), 300))
	}
	a, b := want.Feats[0], got.Feats[0]
	if len(a.Miss) != len(b.Miss) {
		x.Fail("round-trip", "%d cases come back as %d", len(a.Miss), len(b.Miss))
	}
	names := map[string]string{}
	seen := map[string]bool{}
	for i := range a.Miss {
		if b.Miss[i] {
			x.Fail("round-trip", "the target of case %d comes back as missing", i)
		}
		if a.Num {
			v := b.GetStr(i)
			if w, err := strconv.ParseFloat(v, 64); err != nil || w != a.Val[i] {
				x.Fail("round-trip", "the target of case %d is %v and comes back as %s", i, a.Val[i], v)
			}
			continue
		}
		s, t := a.Str[i], b.GetStr(i)
		if old, ok := names[s]; ok && old != t || !ok && seen[t] {
			x.Fail("round-trip", "the class %q of case %d comes back as %q, an earlier one as %q", s, i, t, old)
		}
		names[s], seen[t] = t, true
	}
	w := &Table{Feats: append([]*Feat{}, want.Feats[1:]...), Cases: want.Cases}
	g := &Table{Feats: append([]*Feat{}, got.Feats[1:]...), Cases: got.Cases}
	if m := sameTable(w, g); m != "" {
		x.Fail("round-trip", "written as libsvm and loaded again: %s", m)
	}
}

func init() {
	gen := func(r *sim.RNG) Load {
		c := Load{DJ: genDJ(r), How: r.Intn(2), EOF: r.Intn(2) == 0, Zero: r.Intn(4) == 0}
		return c
	}
	register(&Property{ID: "P16", Quick: 40000, Real: []string{"data loading", "AFM, ARFF and LibSVM parsers and writers", "archive/zip"}, Scenarios: []*Scenario{
		scen("load", 3, func(r *sim.RNG, tier string) Load { return gen(r) }, runP16, Load.shrinks),
		scen("write", 2, func(r *sim.RNG, tier string) Load {
			c := gen(r)
			c.Write = []string{"afm", "afm", "arff", "libsvm", "libsvmcases"}[r.Intn(5)]
			c.Sel = 1 + r.Next()%100000
			c.Again = r.Intn(2) == 0
			if c.Write == "afm" && c.Fmt == 3 {
				c.Fmt = 0 // columns of a libsvm file have no type in their names
			}
			if c.Write[0] == 'l' {
				// what libsvm can carry: numbers without missing values
				c.T.Cats, c.T.Miss, c.T.TMiss, c.T.Strata = 0, 0, 0, false
				if c.T.Nums == 0 {
					c.T.Nums = 1
				}
			}
			c.valid()
			return c
		}, runP16, Load.shrinks),
	}})
}
