package main

import (
	"bytes"
	"io"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Out is a run of a tool whose output fails somewhere.
type Out struct {
	Job
	File  int    `json:"file"`  // which output, in turn
	What  string `json:"what"`  // create, write, close, disk
	Where int    `json:"where"` // per mille of the writes or bytes
	Kind  string `json:"kind"`
	Arg   int    `json:"arg,omitempty"`
}

func genOut(r *sim.RNG, tool string) Out {
	o := Out{Job: genJob(r, tool), File: r.Intn(100), Where: r.Intn(1001), Arg: 1 + r.Intn(20)}
	switch r.Intn(6) {
	case 0:
		o.What = "create"
		o.Kind = []string{"eacces", "enospc", "emfile", "enoent"}[r.Intn(4)]
	case 1, 2:
		o.What = "close"
		o.Kind = "lose"
	case 3:
		o.What = "disk"
	default:
		o.What = "write"
		o.Kind = []string{"eio", "enospc", "short"}[r.Intn(3)]
	}
	return o
}

func (c Out) shrinks() []Out {
	var out []Out
	for _, j := range c.Job.shrinks() {
		d := c
		d.Job = j
		out = append(out, d)
	}
	for _, f := range []func(d *Out){func(d *Out) { d.Where = 0 }, func(d *Out) { d.Where = 1000 }, func(d *Out) { d.File = 0 }, func(d *Out) { d.Arg = 1 }} {
		d := c
		f(&d)
		out = append(out, d)
	}
	return out
}

func sortedLines(b []byte) string {
	l := strings.Split(string(b), "\n")
	for i := 1; i < len(l); i++ {
		for k := i; k > 0 && l[k] < l[k-1]; k-- {
			l[k], l[k-1] = l[k-1], l[k]
		}
	}
	return strings.Join(l, "\n")
}

func runP14(x *Ctx, c *Out) {
	var opts sim.Options
	if c.A != nil && !c.A.Votes {
		c.A.Preds = true
	}
	fs := sim.NewFS()
	args := c.setup(fs)
	in := fs.Clone()
	ref := x.Tool(c.Tool, args, fs, func(o *sim.Options) { opts = *o })
	x.MustEnd(ref, c.Tool)
	outs := c.outs()
	total := 0
	for _, n := range outs {
		b, ok := fs.Get(n)
		x.Check(ok, "no-file", "%s ended with status 0 but there is no %s", c.Tool, n)
		total += len(b)
	}
	file := outs[c.File%len(outs)]
	count := map[string]int{}
	for _, k := range fs.Counts() {
		if k.File == file {
			count[k.Op] += k.N
		}
	}
	if count["close"]+count["sync"] == 0 {
		x.Fail("unclosed", "%s ends with status 0 without having closed %s: when what it wrote is lost at the end, nobody is told", c.Tool, file)
	}
	fs2 := in
	res := x.Tool(c.Tool, args, fs2, func(o *sim.Options) {
		*o = opts
		switch c.What {
		case "disk":
			o.DiskCap = int64(1 + (total-1)*c.Where/1001)
		case "write":
			n := 1 + (count["write"]-1)*c.Where/1000
			o.Faults = []sim.Fault{{File: file, Op: "write", N: n, Kind: c.Kind, Arg: c.Arg}}
		default:
			o.Faults = []sim.Fault{{File: file, Op: c.What, N: 1, Kind: c.Kind, Arg: c.Arg}}
		}
	})
	if cl, m := Died(res); cl != "" && cl != "panic" {
		x.Fail(cl, "%s with failing output: %s", c.Tool, m)
	}
	if len(res.Fired) == 0 {
		x.Count("fault did not occur", 1)
	}
	if res.Exit != 0 || res.Panic != "" {
		if len(res.Fired) == 0 {
			x.Fail("exit", "%s: failed with status %d although nothing went wrong: %s", c.Tool, res.Exit, tail(string(res.Stderr), 400))
		}
		x.Count("failure reported", 1)
		return
	}
	what := c.What + " " + c.Kind
	for _, n := range outs {
		a, _ := fs.Get(n)
		b, ok := fs2.Get(n)
		switch {
		case !ok:
			x.Fail("silent", "%s ended with status 0 after %s of %s failed, and there is no %s", c.Tool, what, file, n)
		case bytes.Equal(a, b):
		case c.L != nil && len(a) == len(b) && (sortedLines(a) == sortedLines(b) || n == "splits.json"):
		case c.G != nil && c.G.Cores > 1 && len(res.Fired) > 0 && bytes.Count(a, []byte("\n")) == bytes.Count(b, []byte("\n")):
			// the workers may have met in another order
		default:
			x.Fail("silent", "%s ended with status 0 after %s of %s failed (faults %v), but %s is not complete: %d of %d bytes, %s", c.Tool, what, file, res.Fired, n, len(b), len(a), firstDiff(string(a), string(b)))
		}
	}
	x.Count("complete in spite of the fault", 1)
}

// WriterJob writes something through the library.
type WriterJob struct {
	T     TSpec  `json:"t"`
	F     FSpec  `json:"f"`
	What  string `json:"what"`
	Where int    `json:"where"` // per mille
	Once  bool   `json:"once,omitempty"`
	EOF   bool   `json:"eof,omitempty"` // fails with io.EOF
}

func (c WriterJob) shrinks() []WriterJob {
	var out []WriterJob
	for _, t := range c.T.shrinks() {
		d := c
		d.T = t
		out = append(out, d)
	}
	for _, t := range c.F.shrinks() {
		d := c
		d.F = t
		out = append(out, d)
	}
	d := c
	d.Once = false
	out = append(out, d)
	d = c
	d.Where = c.Where / 2
	return append(out, d)
}

func runWriters(x *Ctx, c *WriterJob) {
	tab := c.T.Build()
	data := tab.AFM(false, nil, true, false)
	sf := c.F.Build(tab, c.T.target())
	text := sf.Emit()
	var whole bytes.Buffer
	st := sim.NewStream(nil)
	var err, err2 error
	var cases []int
	for i := range tab.Cases {
		if i%3 != 1 {
			cases = append(cases, i)
		}
	}
	write := func(fm *CF.FeatureMatrix, f *CF.Forest, w io.Writer) error {
		switch c.What {
		case "forest":
			return CF.NewForestWriter(w).WriteForest(f)
		case "trees":
			fw := CF.NewForestWriter(w)
			if err := fw.WriteForestHeader(0, f.Target, f.Intercept); err != nil {
				return err
			}
			for i, t := range f.Trees {
				if err := fw.WriteTree(t, i); err != nil {
					return err
				}
			}
			return nil
		case "nodes":
			fw := CF.NewForestWriter(w)
			for i, t := range f.Trees {
				if err := fw.WriteTreeHeader(i, t.Target, t.Weight); err != nil {
					return err
				}
				if err := fw.WriteNodeAndChildren(t.Root, "*"); err != nil {
					return err
				}
			}
			return nil
		case "afm":
			return fm.WriteCases(w, cases)
		case "arff":
			return CF.WriteArffCases(fm, cases, "sim", w)
		case "libsvm":
			return CF.WriteLibSvm(fm, c.T.target(), w)
		}
		return CF.WriteLibSvmCases(fm, cases, c.T.target(), w)
	}
	res := x.Lib(nil, nil, func() {
		fm := CF.ParseAFM(bytes.NewReader(data))
		f, e := CF.NewForestReader(bytes.NewReader(text)).ReadForest()
		if e != nil {
			panic(e)
		}
		err = write(fm, f, &whole)
		st.Cap = (whole.Len() - 1) * c.Where / 1000
		st.Once = c.Once
		if c.EOF {
			st.Err = io.EOF
		}
		err2 = write(fm, f, st)
	})
	x.MustEnd(res, "writing "+c.What)
	if err != nil {
		x.Fail("spurious", "writing %s to a healthy stream fails: %v", c.What, err)
	}
	if err2 == nil && !bytes.Equal(whole.Bytes(), st.Buf) {
		x.Fail("silent", "writing %s to a stream that failed after %d bytes reports no error; %d of %d bytes were written", c.What, (whole.Len()-1)*c.Where/1000, len(st.Buf), whole.Len())
	}
	if err2 != nil {
		x.Count("error returned", 1)
	}
}

func init() {
	tool := func(name string, w int) *Scenario {
		return scen(strings.TrimPrefix(name, "utils/"), w, func(r *sim.RNG, tier string) Out { return genOut(r, name) }, runP14, Out.shrinks)
	}
	register(&Property{ID: "P14", Quick: 24000, Real: append(append([]string{"nfold", "toafm", "leafcount", "forest, matrix, arff and libsvm writers"}, growReal...), applyReal...), Scenarios: []*Scenario{
		tool("growforest", 3), tool("applyforest", 2), tool("leafcount", 1), tool("utils/nfold", 2), tool("utils/toafm", 1),
		scen("writers", 3, func(r *sim.RNG, tier string) WriterJob {
			target := []string{"num", "cat"}[r.Intn(2)]
			c := WriterJob{T: genTSpec(r, target), F: genFSpec(r), Where: r.Intn(1001), Once: r.Intn(2) == 0, EOF: r.Intn(4) == 0,
				What: []string{"forest", "trees", "nodes", "afm", "arff", "libsvm", "libsvmcases"}[r.Intn(7)]}
			c.T.TMiss = 0
			if r.Intn(3) == 0 {
				c.F.Inter = 0.5
			}
			return c
		}, runWriters, WriterJob.shrinks),
	}})
}
