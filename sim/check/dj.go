package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// DJ describes a data file.
type DJ struct {
	T     TSpec `json:"t"`
	Fmt   int   `json:"fmt"` // 0 rows, 1 columns, 2 arff, 3 libsvm
	Final bool  `json:"final,omitempty"`
	CRLF  bool  `json:"crlf,omitempty"`
	Zip   bool  `json:"zip,omitempty"`
	Spell bool  `json:"spell,omitempty"` // missing values in several spellings
	Prec  bool  `json:"prec,omitempty"`  // numbers with all their digits
	Text  int   `json:"text,omitempty"`  // names, labels and categories of unusual characters
	Long  int   `json:"long,omitempty"`  // bytes a name, a category and a label are made longer by
}

func genDJ(r *sim.RNG) DJ {
	target := []string{"num", "cat"}[r.Intn(2)]
	c := DJ{T: genTSpec(r, target), Fmt: r.Intn(4), Final: r.Intn(3) > 0, CRLF: r.Intn(5) == 0, Zip: r.Intn(3) == 0, Spell: r.Intn(2) == 0, Prec: r.Intn(3) == 0}
	if r.Intn(3) == 0 {
		c.Text = 1 + r.Intn(1000)
	}
	switch r.Intn(8) {
	case 0:
		c.T.Cases = 100 + r.Intn(200)
		c.T.Nums += r.Intn(10)
	case 1:
		c.T.Cases = 2 + r.Intn(3)
	}
	if r.Intn(25) == 0 {
		c.Long = genLong(r)
		if c.Fmt == 3 {
			c.T.Nums, c.T.Cases = 3+c.Long/20, 5
		}
	}
	c.valid()
	return c
}

func (c *DJ) valid() {
	if c.Fmt >= 2 {
		c.Zip = false
	}
	if c.Fmt == 3 {
		c.T.Odd, c.Text, c.Long = false, 0, 0
		c.T.TMiss = 0
	}
}

func (c DJ) shrinks() []DJ {
	var out []DJ
	try := func(f func(*DJ)) {
		d := c
		f(&d)
		d.valid()
		out = append(out, d)
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *DJ) { d.T = t })
	}
	for _, f := range []func(*DJ){func(d *DJ) { d.Fmt = 0 }, func(d *DJ) { d.Final = true }, func(d *DJ) { d.CRLF = false }, func(d *DJ) { d.Zip = false },
		func(d *DJ) { d.Spell = false }, func(d *DJ) { d.Prec = false }, func(d *DJ) { d.Text = 0 }, func(d *DJ) { d.Long = 0 }} {
		try(f)
	}
	return out
}

// table is what is in the file, as a reader has to see it.
func (c *DJ) table() *Table {
	t := c.T.Build()
	if c.Prec {
		for k, f := range t.Feats {
			for i := range f.Val {
				f.Val[i] *= 1 + 1/(3+float64(i+7*k))
				if i%11 == 5 {
					f.Val[i] *= 1e-9
				}
				if i%13 == 6 {
					f.Val[i] *= 1e21
				}
				if f.Name != c.T.target() && (i+k)%19 == 7 {
					f.Val[i] = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324, 0.1 + 0.2, math.Copysign(0, -1)}[k%6]
				}
			}
		}
	}
	if c.Text > 0 {
		t = t.rich(c.Text, c.T.target())
		for i, f := range t.Feats { // features without a type are categorical
			if n := fmt.Sprint("plain", i); !f.Num && f.Name != c.T.target() && (i > 0 || c.Fmt == 0) && c.Fmt < 2 && (c.Text+i)%3 == 0 {
				f.Name = n
			}
		}
	}
	if c.Long > 0 {
		t = t.long(c.T.Seed, c.Long, c.T.target())
	}
	return t
}

// genLong draws the length of a long text: readers that take lines in pieces often do so at 4 KiB or 64 KiB.
func genLong(r *sim.RNG) int {
	switch r.Intn(4) {
	case 0:
		return 65536 - 40 + r.Intn(80)
	case 1:
		return 60 + r.Intn(12000)
	}
	return 4096*(1+r.Intn(2)) - 60 + r.Intn(80)
}

// long makes a feature's name (not the target's), a category and a label longer.
func (t *Table) long(seed uint64, n int, target string) *Table {
	r := &sim.RNG{S: sim.Mix(seed, 31)}
	o := &Table{Cases: append([]string(nil), t.Cases...)}
	pad := strings.Repeat("y", n)
	k := r.Intn(len(t.Feats))
	for i, f := range t.Feats {
		g := *f
		if i == k && f.Name != target {
			g.Name += pad
		}
		if !f.Num && r.Intn(2) == 0 {
			long := f.Str[r.Intn(len(f.Str))]
			g.Str = nil
			left := 4 // values made longer: some may be, for they stay equal when shorter
			for _, s := range f.Str {
				if s == long && left > 0 {
					s += pad
					left--
				}
				g.Str = append(g.Str, s)
			}
		}
		o.Feats = append(o.Feats, &g)
	}
	if r.Intn(2) == 0 && len(o.Cases) > 0 {
		o.Cases[r.Intn(len(o.Cases))] += pad
	}
	return o
}

// unusual texts
var unusual = []string{" lead", "trail ", "a,b", "q\"uote", "\"quoted\"", "tab\tin", "line\nbreak", "é—ü", "#hash", "x%y", "a:b", "a=b", "'single'", "back\\slash", "{x}", "N:x",
	"-", ".", "x\\'y", "@data", "a  b", "\\.", "; z", "Ω"}

// rich gives features (except the target), categories and cases unusual names.
func (t *Table) rich(seed int, target string) *Table {
	r := &sim.RNG{S: uint64(seed)}
	o := &Table{}
	used := map[string]bool{}
	for _, f := range t.Feats {
		used[f.Name] = true
	}
	for _, f := range t.Feats {
		g := *f
		if f.Name != target && r.Intn(2) == 0 {
			n := f.Name[:2] + unusual[r.Intn(len(unusual))]
			if !used[n] {
				g.Name, used[n] = n, true
			}
		}
		if !f.Num && r.Intn(2) == 0 {
			k := r.Intn(len(unusual))
			m := map[string]string{}
			g.Str = nil
			for _, s := range f.Str {
				if _, ok := m[s]; !ok {
					m[s] = s
					if len(m) <= len(unusual) && r.Intn(3) > 0 {
						m[s] = unusual[(k+len(m))%len(unusual)]
					}
				}
				g.Str = append(g.Str, m[s])
			}
		}
		o.Feats = append(o.Feats, &g)
	}
	for _, s := range t.Cases {
		switch r.Intn(3) {
		case 0:
			s = unusual[r.Intn(len(unusual))]
			if s == "N:x" { // a first label that looks like a feature says that features are columns
				s = ""
			}
		case 1:
			s += unusual[r.Intn(len(unusual))]
		}
		o.Cases = append(o.Cases, s)
	}
	return o
}

// libsvmTable is the table a libsvm file holds.
func libsvmTable(t *Table, target string) *Table {
	o := &Table{}
	for i := range t.Cases {
		o.Cases = append(o.Cases, strconv.Itoa(i))
	}
	tf := *t.get(target)
	tf.Name = "0"
	o.Feats = append(o.Feats, &tf)
	for _, f := range t.Feats {
		if f.Name == target || !f.Num {
			continue
		}
		g := &Feat{Name: strconv.Itoa(len(o.Feats)), Num: true}
		for i, v := range f.Val {
			if f.Miss[i] {
				v = 0
			}
			g.Val = append(g.Val, v)
			g.Miss = append(g.Miss, false)
		}
		o.Feats = append(o.Feats, g)
	}
	for len(o.Feats) > 1 {
		last := o.Feats[len(o.Feats)-1]
		for _, v := range last.Val {
			if v != 0 {
				return o
			}
		}
		o.Feats = o.Feats[:len(o.Feats)-1]
	}
	return o
}

// build returns the name of the file, its text, and the table it must load as.
func (c *DJ) build() (string, []byte, *Table) {
	t := c.table()
	var r *sim.RNG
	if c.Spell {
		r = &sim.RNG{S: c.T.Seed + 5}
	}
	switch c.Fmt {
	case 2:
		o := &Table{Feats: t.Feats}
		for i := range t.Cases {
			o.Cases = append(o.Cases, strconv.Itoa(i))
		}
		return "data.arff", t.ARFF(c.Final, r, c.CRLF), o
	case 3:
		return "data.libsvm", t.LibSVM(c.T.target(), c.Final, r, c.CRLF), libsvmTable(t, c.T.target())
	}
	b := t.AFM(c.Fmt == 1, r, c.Final, c.CRLF)
	if c.Zip {
		b = zipped("inside.afm", b)
	}
	return "data.afm", b, t
}

// parse reads a stream with the parser for the format.
func (c *DJ) parse(r io.Reader) *CF.FeatureMatrix {
	switch c.Fmt {
	case 2:
		return CF.ParseARFF(r)
	case 3:
		return CF.ParseLibSVM(r)
	}
	return CF.ParseAFM(r)
}

// ragged says whether the parts of a matrix do not fit together ("" if they do).
func ragged(fm *CF.FeatureMatrix) string {
	for i, f := range fm.Data {
		if f == nil {
			return fmt.Sprintf("feature %d is nil", i)
		}
		if f.Length() != len(fm.CaseLabels) {
			return fmt.Sprintf("feature %s has %d cases, there are %d labels", f.GetName(), f.Length(), len(fm.CaseLabels))
		}
		g := fromFeature(f)
		if n := len(g.Val) + len(g.Str); n != len(g.Miss) {
			return fmt.Sprintf("feature %s has %d values and %d missing flags", g.Name, n, len(g.Miss))
		}
	}
	return ""
}

// FJ is a data file that fails or is damaged.
type FJ struct {
	DJ
	What  string `json:"what"` // stream: error, cut, flip; file: read, open, stat, cut, flip
	Where int    `json:"where"`
	Off   int    `json:"off"`
	Arg   int    `json:"arg,omitempty"`
	Once  bool   `json:"once,omitempty"`
	EOF   bool   `json:"eof,omitempty"`
	Zero  bool   `json:"zero,omitempty"`
}

func (c FJ) shrinks() []FJ {
	var out []FJ
	for _, j := range c.DJ.shrinks() {
		d := c
		d.DJ = j
		out = append(out, d)
	}
	for _, f := range []func(*FJ){func(d *FJ) { d.Once = false }, func(d *FJ) { d.EOF = false }, func(d *FJ) { d.Zero = false }, func(d *FJ) { d.Off = 0 },
		func(d *FJ) { d.Where /= 2 }, func(d *FJ) { d.Arg /= 2 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

func (c *FJ) at(n int) int {
	k := n*c.Where/1000 + c.Off
	if k > n {
		k = n
	}
	return k
}

// damaged is the file after the damage: cut off, or one byte changed, removed or doubled.
func (c *FJ) damaged(b []byte) []byte {
	b = append(make([]byte, 0, len(b)+1), b...)
	k := c.at(len(b))
	if c.What == "cut" {
		return b[:k]
	}
	if k == len(b) {
		k--
	}
	if !c.Zip {
		switch c.Arg % 5 {
		case 3:
			return append(b[:k], b[k+1:]...)
		case 4:
			return append(b[:k+1:k+1], b[k:]...)
		case 2:
			const odd = "\t\n\",:@%?0 NP\x00\xff{}"
			b[k] = odd[c.Arg%len(odd)]
			return b
		}
	}
	b[k] ^= byte(1 + c.Arg%255)
	return b
}

// runP15Stream parses a failing, cut off or damaged stream.
func runP15Stream(x *Ctx, c *FJ) {
	c.Zip = false
	_, all, want := c.build()
	b := all
	at := c.at(len(all))
	st := sim.NewStream(nil)
	if c.What == "error" {
		st.FailAt, st.Once = at, c.Once
	} else {
		b = c.damaged(all)
	}
	st.Data = append([]byte(nil), b...)
	st.WithEOF, st.Zero = c.EOF, c.Zero
	var fm *CF.FeatureMatrix
	res := x.Lib(nil, nil, func() { fm = c.parse(st) })
	x.MustEnd(res, fmt.Sprintf("parsing a stream of %d bytes (%s)", len(b), c.What))
	if fm == nil {
		x.Count("nothing loaded", 1)
		return
	}
	if m := ragged(fm); m != "" {
		x.Fail("ragged", "what was loaded from a stream (%s at %d of %d) does not fit together: %s", c.What, at, len(all), m)
	}
	if c.What == "error" {
		if m := checkFM(want, fm); m != "" || !c.Once {
			x.Fail("shorter", "the stream failed after %d of %d bytes, a table was loaded all the same: %s", at, len(all), m)
		}
	}
	x.Count("something loaded", 1)
}

// runP15File loads a file that fails, is cut off or damaged.
func runP15File(x *Ctx, c *FJ) {
	name, b, want := c.build()
	fs := sim.NewFS()
	var fm *CF.FeatureMatrix
	var err error
	load := func() { fm, err = CF.LoadAFM(name) }
	if c.What == "empty" { // an archive without files
		fs.Put(name, zipped("", nil))
		res := x.Lib(fs, nil, load)
		x.MustEnd(res, "loading an empty archive")
		x.Check(err != nil && fm == nil, "nothing", "loading an archive without files gives no error")
		x.Check(fs.OpenFiles() == 0, "leak", "%d files are still open after loading", fs.OpenFiles())
		x.Count("empty archives", 1)
		return
	}
	if c.What == "cut" || c.What == "flip" {
		d := c.damaged(b)
		fs.Put(name, d)
		res := x.Lib(fs, nil, load)
		x.MustEnd(res, "loading a damaged file")
		if err != nil {
			x.Count("error", 1)
			return
		}
		if fm == nil {
			x.Fail("nothing", "loading a damaged file gives neither a table nor an error")
		}
		if m := ragged(fm); m != "" {
			x.Fail("ragged", "what was loaded from a damaged file does not fit together: %s", m)
		}
		if c.Zip {
			if m := checkFM(want, fm); m != "" {
				x.Fail("damaged", "a damaged archive (%s at %d of %d bytes) was loaded without an error: %s", c.What, c.at(len(b)), len(b), m)
			}
		}
		if fs.OpenFiles() != 0 {
			x.Fail("leak", "%d files are still open after loading", fs.OpenFiles())
		}
		x.Count("loaded", 1)
		return
	}
	fs.Put(name, b)
	in := fs.Clone()
	var opts sim.Options
	res := x.Lib(fs, func(o *sim.Options) { opts = *o }, load)
	x.MustEnd(res, "loading a file")
	if err != nil {
		x.Fail("spurious", "loading a healthy file fails: %v", err)
	}
	ops := 0
	for _, k := range fs.Counts() {
		if k.File == name && k.Op == c.What {
			ops = k.N
		}
	}
	if ops == 0 {
		x.Count("no such operation", 1)
		return
	}
	n := 1 + (ops-1)*c.Where/1000
	kind := "eio"
	switch {
	case c.What == "open":
		kind = []string{"eio", "enoent", "eacces", "emfile"}[c.Arg%4]
	case c.What == "read" && c.Once:
		kind = "short"
	}
	fm, err = nil, nil
	res = x.Lib(in, func(o *sim.Options) {
		*o = opts
		o.Faults = []sim.Fault{{File: name, Op: c.What, N: n, Kind: kind, Arg: c.Arg}}
	}, load)
	x.MustEnd(res, "loading a failing file")
	if err == nil {
		if fm == nil {
			x.Fail("nothing", "loading a failing file gives neither a table nor an error")
		}
		if m := checkFM(want, fm); m != "" || len(res.Fired) > 0 && c.What == "read" {
			x.Fail("shorter", "%s %d of %d of the file failed (%s), a table was loaded all the same: %s", c.What, n, ops, kind, m)
		}
		return
	}
	if in.OpenFiles() != 0 {
		x.Count("file left open after a failure", 1)
	}
	x.Count("error", 1)
}

// IJ is a tool whose data or exclusion list fails or is cut off.
type IJ struct {
	Job
	File  int    `json:"file"`
	What  string `json:"what"` // read, open, cut
	Kind  string `json:"kind,omitempty"`
	Where int    `json:"where"`
	Arg   int    `json:"arg,omitempty"`
}

func (c IJ) shrinks() []IJ {
	var out []IJ
	for _, j := range c.Job.shrinks() {
		d := c
		d.Job = j
		out = append(out, d)
	}
	for _, f := range []func(d *IJ){func(d *IJ) { d.Where = 0 }, func(d *IJ) { d.Where = 1000 }, func(d *IJ) { d.File = 0 }, func(d *IJ) { d.Arg = 1 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

func genIJ(r *sim.RNG, tool string) IJ {
	c := IJ{Job: genJob(r, tool), File: r.Intn(60), Where: r.Intn(1001), Arg: r.Intn(40)}
	if c.G != nil && r.Intn(2) == 0 {
		c.G.Trees = 1 + r.Intn(3)
	}
	switch r.Intn(5) {
	case 0:
		c.What = "cut"
	case 1:
		c.What, c.Kind = "open", []string{"enoent", "eacces", "emfile", "eio"}[r.Intn(4)]
	default:
		c.What, c.Kind = "read", []string{"eio", "short"}[r.Intn(2)]
	}
	return c
}

func runP15Tool(x *Ctx, c *IJ) {
	if c.A != nil {
		c.A.Preds = true
	}
	fs := sim.NewFS()
	args := c.setup(fs)
	outs := c.outs()
	var files []string
	for _, n := range fs.Names() {
		if !strings.HasSuffix(n, ".sf") {
			files = append(files, n)
		}
	}
	file := files[c.File%len(files)]
	if c.What == "cut" {
		b, _ := fs.Get(file)
		k := len(b) * c.Where / 1000
		fs.Put(file, b[:k])
		res := x.Tool(c.Tool, args, fs, nil)
		why := fmt.Sprintf("%s: %s is cut off after %d of %d bytes", c.Tool, file, k, len(b))
		if cl, m := Died(res); cl == "deadlock" || cl == "livelock" {
			x.Fail(cl, "%s: %s", why, m)
		} else if cl != "" {
			x.Count("stopped by what is missing", 1) // the table that is left may be of no use
			if strings.Contains(m, "CloudForest.Parse") || strings.Contains(m, "CloudForest.parse") || strings.Contains(m, "LoadAFM") {
				x.Fail(cl, "%s: %s", why, m)
			}
		}
		z := bytes.HasPrefix(b, []byte("PK"))
		if k == 0 && file != "black.txt" || z && k < len(b) {
			if res.Panic != "" {
				x.Fail("panic", "%s: %s", why, res.Panic)
			}
			c.failed(x, res, fs, outs, file, why)
		}
		return
	}
	in := fs.Clone()
	var opts sim.Options
	ref := x.Tool(c.Tool, args, fs, func(o *sim.Options) { opts = *o })
	x.MustEnd(ref, c.Tool)
	ops := 0
	for _, k := range fs.Counts() {
		if k.File == file && k.Op == c.What {
			ops = k.N
		}
	}
	x.Check(ops > 0, "unread", "%s ends with status 0 without having made a %s of %s", c.Tool, c.What, file)
	n := 1 + (ops-1)*c.Where/1000
	res := x.Tool(c.Tool, args, in, func(o *sim.Options) {
		*o = opts
		o.Faults = []sim.Fault{{File: file, Op: c.What, N: n, Kind: c.Kind, Arg: c.Arg}}
	})
	if len(res.Fired) == 0 {
		x.Count("fault did not occur", 1)
		return
	}
	c.failed(x, res, in, outs, file, fmt.Sprintf("%s: %s %d of %d of %s failed (%s)", c.Tool, c.What, n, ops, file, c.Kind))
}

// failed requires a failure without results. Data to test on is only read when the forest is finished.
func (c *IJ) failed(x *Ctx, res *sim.Result, fs *sim.FS, outs []string, file, why string) {
	if file == "test.afm" {
		if got := grab(res.Stdout, `^Error: (\S+)$`); len(got) > 0 {
			x.Fail("results", "%s, and the error on it is reported all the same: %v", why, got)
		}
		outs = nil
	}
	failed(x, res, fs, outs, why)
}

func init() {
	tool := func(name string, w int) *Scenario {
		return scen(strings.TrimPrefix(name, "utils/"), w, func(r *sim.RNG, tier string) IJ { return genIJ(r, name) }, runP15Tool, IJ.shrinks)
	}
	fj := func(r *sim.RNG, what ...string) FJ {
		c := FJ{DJ: genDJ(r), What: what[r.Intn(len(what))], Where: r.Intn(1001), Off: r.Intn(3), Arg: r.Intn(1000), Once: r.Intn(3) == 0, EOF: r.Intn(2) == 0, Zero: r.Intn(4) == 0}
		return c
	}
	register(&Property{ID: "P15", Quick: 40000, Real: []string{"data loading", "AFM, ARFF and LibSVM parsers", "growforest", "applyforest", "leafcount", "nfold", "toafm", "archive/zip"}, Scenarios: []*Scenario{
		scen("stream", 4, func(r *sim.RNG, tier string) FJ { return fj(r, "error", "error", "cut", "flip") }, runP15Stream, FJ.shrinks),
		scen("file", 3, func(r *sim.RNG, tier string) FJ {
			return fj(r, "read", "read", "open", "stat", "seek", "cut", "flip", "cut", "flip", "empty")
		}, runP15File, FJ.shrinks),
		tool("growforest", 1), tool("applyforest", 1), tool("leafcount", 1), tool("utils/nfold", 1), tool("utils/toafm", 1),
	}})
}
