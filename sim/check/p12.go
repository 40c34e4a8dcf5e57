package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Read is a forest read through the library from a stream that fails or ends early.
type Read struct {
	T     TSpec   `json:"t"`
	Fs    []FSpec `json:"fs"`
	ByTr  bool    `json:"by_tree,omitempty"`
	Where int     `json:"where"` // per mille of the bytes
	Off   int     `json:"off"`   // and some more
	Err   int     `json:"err"`   // which error
	Once  bool    `json:"once,omitempty"`
	EOF   bool    `json:"eof,omitempty"` // errors come together with data
	FCut  bool    `json:"fcut,omitempty"`
}

var errCustom = errors.New("the network is gone")

func (c *Read) err() error {
	return []error{sim.EIO, errCustom, io.ErrUnexpectedEOF, io.ErrClosedPipe}[c.Err%4]
}

func (c Read) shrinks() []Read {
	var out []Read
	try := func(f func(*Read)) {
		d := c
		d.Fs = append([]FSpec(nil), c.Fs...)
		f(&d)
		out = append(out, d)
	}
	if len(c.Fs) > 1 {
		try(func(d *Read) { d.Fs = d.Fs[1:] })
		try(func(d *Read) { d.Fs = d.Fs[:len(d.Fs)-1] })
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *Read) { d.T = t })
	}
	for i := range c.Fs {
		for _, f := range c.Fs[i].shrinks() {
			f := f
			try(func(d *Read) { d.Fs[i] = f })
		}
	}
	for _, f := range []func(*Read){func(d *Read) { d.Err = 0 }, func(d *Read) { d.Once = false }, func(d *Read) { d.EOF = false },
		func(d *Read) { d.FCut = false }, func(d *Read) { d.Where = d.Where / 2; d.Off = 0 }, func(d *Read) { d.Off = 0 }, func(d *Read) { d.Where = 1000 }} {
		try(f)
	}
	return out
}

// build makes the bytes and the forests they hold.
func (c *Read) build() ([]byte, []*SF) {
	tab := c.T.Build()
	var all []byte
	var sfs []*SF
	for i, f := range c.Fs {
		s := f.Build(tab, c.T.target())
		if i > 0 {
			s.Forests = 1
		}
		sfs = append(sfs, s)
		all = append(all, s.Emit()...)
	}
	if c.FCut {
		all = bytes.TrimSuffix(all, []byte("\n"))
	}
	return all, sfs
}

// gotForest is what the reader delivered.
type gotForest struct {
	Inter float64
	Tgt   string
	Trees []*TTree
}

// readAll reads everything the stream gives, until an error or the end. max bounds a reader that never ends.
func readAll(st io.Reader, byTree bool, max int) (fs []gotForest, err error) {
	fr := CF.NewForestReader(st)
	for n := 0; ; n++ {
		if n > max {
			return fs, fmt.Errorf("harness: the reader goes on for ever")
		}
		if !byTree {
			f, e := fr.ReadForest()
			if f != nil {
				g := gotForest{Inter: f.Intercept, Tgt: f.Target}
				for _, t := range f.Trees {
					g.Trees = append(g.Trees, snapshot(t))
				}
				fs = append(fs, g)
			} else if e == nil {
				return fs, fmt.Errorf("harness: neither a forest nor an error")
			}
			if e != nil {
				return fs, e
			}
			continue
		}
		t, f, e := fr.ReadTree()
		if f != nil || t != nil && len(fs) == 0 {
			g := gotForest{}
			if f != nil {
				g.Inter, g.Tgt = f.Intercept, f.Target
			} else {
				g.Tgt = t.Target
			}
			fs = append(fs, g)
		}
		if t != nil {
			g := &fs[len(fs)-1]
			g.Trees = append(g.Trees, snapshot(t))
		}
		if e != nil {
			return fs, e
		}
	}
}

// sameForests compares everything that was read with everything that was written.
func sameForests(got []gotForest, want []*SF) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d forests, written were %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if len(g.Trees) != len(w.Trees) {
			return fmt.Sprintf("forest %d has %d trees, written were %d", i, len(g.Trees), len(w.Trees))
		}
		if g.Inter != w.Intercept {
			return fmt.Sprintf("forest %d has the intercept %v, written was %v", i, g.Inter, w.Intercept)
		}
		if g.Tgt != w.Target {
			return fmt.Sprintf("forest %d has the target %q, written was %q", i, g.Tgt, w.Target)
		}
		for k, t := range w.Trees {
			if a, b := t.String(), g.Trees[k].String(); a != b {
				return fmt.Sprintf("tree %d of forest %d is %s, written was %s", k, i, tail(b, 700), tail(a, 700))
			}
		}
	}
	return ""
}

// whole says whether every split has its children and every leaf its prediction.
func (n *TNode) whole() bool {
	if n == nil {
		return false
	}
	if !n.Split {
		return true
	}
	return n.L.whole() && n.R.whole() && (n.M == nil || n.M.whole())
}

// nodes lists the nodes by path, in the order of the file.
func (n *TNode) nodes(path string, f func(path, text string)) {
	if n == nil {
		return
	}
	m := *n
	m.L, m.R, m.M = nil, nil, nil
	f(path, m.String())
	n.L.nodes(path+"L", f)
	n.R.nodes(path+"R", f)
	n.M.nodes(path+"M", f)
}

// checkPrefix requires that what was read from a stream that broke off is the beginning of what was written. The
// stream ended after n of the bytes. clean: the reader took it for a normal end.
func checkPrefix(x *Ctx, all []byte, n int, got []gotForest, want []*SF, clean bool) {
	var wt, gt []*TTree
	for _, f := range want {
		wt = append(wt, f.Trees...)
	}
	for _, f := range got {
		gt = append(gt, f.Trees...)
	}
	if len(gt) > len(wt) {
		x.Fail("phantom", "%d trees were read from the first %d of %d bytes, written were %d", len(gt), n, len(all), len(wt))
	}
	for i, t := range gt {
		if i < len(gt)-1 {
			if a, b := wt[i].String(), t.String(); a != b {
				x.Fail("altered", "tree %d of the %d read from the first %d of %d bytes is %s, written was %s", i, len(gt), n, len(all), tail(b, 600), tail(a, 600))
			}
			continue
		}
		if !clean {
			continue
		}
		if !t.Root.whole() {
			x.Fail("cut-tree", "the stream ended after %d of %d bytes; its last tree is taken for complete but is %s, written was %s", n, len(all), tail(t.Root.String(), 600), tail(wt[i].Root.String(), 600))
		}
		have := map[string]string{}
		var order []string
		wt[i].Root.nodes("*", func(p, s string) { have[p] = s; order = append(order, p) })
		var bad []string
		k := 0
		t.Root.nodes("*", func(p, s string) {
			if have[p] != s {
				bad = append(bad, fmt.Sprintf("node %s is %s, written was %s", p, s, have[p]))
			}
			k++
		})
		// the last line may be cut in its prediction
		lines := bytes.Split(all[:n], []byte("\n"))
		last := string(lines[len(lines)-1])
		if len(bad) > 1 || len(bad) == 1 && !strings.HasPrefix(last, "NODE=") {
			x.Fail("altered", "the last tree read from the first %d of %d bytes: %s", n, len(all), strings.Join(bad, "; "))
		}
	}
	// whole trees must be there
	head := all[:n]
	if i := bytes.LastIndexByte(head, '\n'); i >= 0 {
		head = head[:i+1]
	} else {
		head = nil
	}
	sure := bytes.Count(head, []byte("TREE=")) - 1
	if len(gt) < sure {
		x.Fail("lost", "%d trees were read from the first %d of %d bytes, which hold %d whole ones", len(gt), n, len(all), sure)
	}
}

func (c *Read) at(n int) int {
	k := n*c.Where/1000 + c.Off
	if k > n {
		k = n
	}
	return k
}

func runP12Err(x *Ctx, c *Read) {
	all, want := c.build()
	st := sim.NewStream(append([]byte(nil), all...))
	at := c.at(len(all))
	st.FailAt = at
	st.Err = c.err()
	st.Once = c.Once
	st.WithEOF = c.EOF
	var got []gotForest
	var err error
	res := x.Lib(nil, nil, func() { got, err = readAll(st, c.ByTr, 5000) })
	x.MustEnd(res, "reading a failing stream")
	if err == nil || strings.HasPrefix(err.Error(), "harness:") {
		x.Fail("no-error", "reading a stream that fails after %d of %d bytes: %v", at, len(all), err)
	}
	if err == io.EOF {
		if m := sameForests(got, want); m != "" || !c.Once {
			x.Fail("swallowed", "the stream failed with %q after %d of %d bytes; the reader reports a normal end, having read: %s", c.err(), at, len(all), m)
		}
		return
	}
	if !errors.Is(err, c.err()) && !strings.Contains(err.Error(), c.err().Error()) {
		x.Fail("other-error", "the stream failed with %q after %d of %d bytes; the reader reports %q", c.err(), at, len(all), err)
	}
	checkPrefix(x, all, at, got, want, false)
	x.Count("error reported", 1)
}

func runP12Cut(x *Ctx, c *Read) {
	all, want := c.build()
	n := c.at(len(all))
	st := sim.NewStream(append([]byte(nil), all[:n]...))
	st.WithEOF = c.EOF
	var got []gotForest
	var err error
	res := x.Lib(nil, nil, func() { got, err = readAll(st, c.ByTr, 5000) })
	x.MustEnd(res, "reading a stream that is cut off")
	if err == nil || strings.HasPrefix(err.Error(), "harness:") {
		x.Fail("no-end", "reading the first %d of %d bytes: %v", n, len(all), err)
	}
	checkPrefix(x, all, n, got, want, err == io.EOF)
	if err == io.EOF {
		x.Count("cut not visible", 1)
	} else {
		x.Count("cut reported", 1)
	}
}

// ReadTool is a tool whose forest file fails or is cut off.
type ReadTool struct {
	A     *AF    `json:"a,omitempty"`
	L     *LC    `json:"l,omitempty"`
	What  string `json:"what"` // read, open, cut
	Kind  string `json:"kind,omitempty"`
	File  int    `json:"file"`
	Where int    `json:"where"`
	Arg   int    `json:"arg,omitempty"`
}

func (c ReadTool) shrinks() []ReadTool {
	var out []ReadTool
	if c.A != nil {
		for _, a := range c.A.shrinks() {
			a := a
			d := c
			d.A = &a
			out = append(out, d)
		}
	}
	if c.L != nil {
		for _, l := range c.L.shrinks() {
			l := l
			d := c
			d.L = &l
			out = append(out, d)
		}
	}
	for _, f := range []func(*ReadTool){func(d *ReadTool) { d.File = 0 }, func(d *ReadTool) { d.Where = 0 }, func(d *ReadTool) { d.Where = 1000 }, func(d *ReadTool) { d.Arg = 0 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

// failed requires that a run failed, in order, and left no results.
func failed(x *Ctx, res *sim.Result, fs *sim.FS, outs []string, why string) {
	if cl, m := Died(res); cl != "" {
		x.Fail(cl, "%s: %s", why, m)
	}
	if res.Exit == 0 {
		x.Fail("silent", "%s, and the program ends with status 0", why)
	}
	for _, n := range outs {
		if b, ok := fs.Get(n); ok && len(b) > 0 {
			x.Fail("results", "%s, and the program fails but writes results to %s: %q", why, n, tail(string(b), 200))
		}
	}
	x.Count("failure reported", 1)
}

func runP12Tool(x *Ctx, c *ReadTool) {
	fs := sim.NewFS()
	var args, outs []string
	tool := "applyforest"
	if c.A != nil {
		c.A.Preds = true
		args, _, _ = c.A.setup(fs)
		outs = c.A.outs()
	} else {
		tool = "leafcount"
		args, _, _ = c.L.setup(fs)
		outs = c.L.outs()
	}
	var forests []string
	for _, n := range fs.Names() {
		if strings.HasSuffix(n, ".sf") {
			forests = append(forests, n)
		}
	}
	file := forests[c.File%len(forests)]
	if c.What == "cut" {
		b, _ := fs.Get(file)
		n := len(b) * c.Where / 1000
		fs.Put(file, b[:n])
		res := x.Tool(tool, args, fs, nil)
		why := fmt.Sprintf("%s: %s is cut off after %d of %d bytes", tool, file, n, len(b))
		if cl, m := Died(res); cl != "" {
			x.Fail(cl, "%s: %s", why, m)
		}
		head := b[:n]
		if n > 0 && head[n-1] != '\n' {
			head = append(append([]byte(nil), head...), '\n')
		}
		sf, err := parseSF(head)
		if err != nil || len(sf.Trees)+sf.Forests == 0 {
			failed(x, res, fs, outs, why)
		}
		return
	}
	in := fs.Clone()
	var opts sim.Options
	ref := x.Tool(tool, args, fs, func(o *sim.Options) { opts = *o })
	x.MustEnd(ref, tool)
	ops := 0
	for _, k := range fs.Counts() {
		if k.File == file && k.Op == c.What {
			ops = k.N
		}
	}
	x.Check(ops > 0, "unread", "%s ends with status 0 without having made a %s of %s", tool, c.What, file)
	n := 1 + (ops-1)*c.Where/1000
	res := x.Tool(tool, args, in, func(o *sim.Options) {
		*o = opts
		o.Faults = []sim.Fault{{File: file, Op: c.What, N: n, Kind: c.Kind, Arg: c.Arg}}
	})
	if len(res.Fired) == 0 {
		x.Count("fault did not occur", 1)
		return
	}
	failed(x, res, in, outs, fmt.Sprintf("%s: %s %d of %d of %s failed (%s)", tool, c.What, n, ops, file, c.Kind))
}

func genRead(r *sim.RNG) Read {
	target := []string{"num", "cat"}[r.Intn(2)]
	c := Read{T: genTSpec(r, target), Where: r.Intn(1001), Off: r.Intn(3), Err: r.Intn(4), ByTr: r.Intn(3) == 0, Once: r.Intn(3) == 0, EOF: r.Intn(2) == 0, FCut: r.Intn(3) == 0}
	c.T.Cases = 4 + r.Intn(8)
	if c.T.Nums+c.T.Cats == 0 {
		c.T.Nums = 1
	}
	for i := 1 + r.Intn(5)/3; i > 0; i-- {
		f := genFSpec(r)
		if r.Intn(2) == 0 {
			f.Trees = 1 + r.Intn(3)
		}
		if r.Intn(4) == 0 {
			f.Inter = 0.5
		}
		c.Fs = append(c.Fs, f)
	}
	return c
}

func genReadTool(r *sim.RNG) ReadTool {
	c := ReadTool{File: r.Intn(60), Where: r.Intn(1001)}
	if r.Intn(2) == 0 {
		a := genAF(r)
		c.A = &a
	} else {
		l := genLC(r)
		c.L = &l
	}
	switch r.Intn(5) {
	case 0:
		c.What = "cut"
	case 1:
		c.What = "open"
		c.Kind = []string{"enoent", "eacces", "emfile", "eio"}[r.Intn(4)]
	default:
		c.What = "read"
		c.Kind = []string{"eio", "short"}[r.Intn(2)]
		c.Arg = r.Intn(30)
	}
	return c
}

func init() {
	register(&Property{ID: "P12", Quick: 40000, Real: append([]string{"leafcount"}, applyReal...), Scenarios: []*Scenario{
		scen("error", 2, func(r *sim.RNG, tier string) Read { return genRead(r) }, runP12Err, Read.shrinks),
		scen("cut", 2, func(r *sim.RNG, tier string) Read { return genRead(r) }, runP12Cut, Read.shrinks),
		scen("tool", 2, func(r *sim.RNG, tier string) ReadTool { return genReadTool(r) }, runP12Tool, ReadTool.shrinks),
	}})
}
