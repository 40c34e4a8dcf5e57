package main

import (
	"cfsim/sim"
)

// TA configures a run of toafm.
type TA struct {
	T     TSpec    `json:"t"`
	Fmt   int      `json:"fmt,omitempty"`
	Zip   bool     `json:"zip,omitempty"`
	SVM   bool     `json:"libsvm,omitempty"`
	Anon  bool     `json:"anon,omitempty"`
	Black []string `json:"blacklist,omitempty"`
}

func genTA(r *sim.RNG) TA {
	target := "num"
	if r.Intn(2) == 0 {
		target = "cat"
	}
	c := TA{T: genTSpec(r, target), Fmt: r.Intn(3), Zip: r.Intn(5) == 0, SVM: r.Intn(3) == 0, Anon: r.Intn(3) == 0}
	if r.Intn(3) == 0 {
		c.Black = []string{"N:num0", "C:cat0", "B:cat0"}[:1+r.Intn(3)]
	}
	c.valid()
	return c
}

func (c *TA) valid() {
	if c.Fmt == 2 {
		c.T.Odd, c.Zip = false, false
	}
	if c.SVM {
		c.T.TMiss, c.Anon = 0, false
	}
}

func (c TA) shrinks() []TA {
	var out []TA
	try := func(f func(*TA)) {
		d := c
		f(&d)
		d.valid()
		out = append(out, d)
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *TA) { d.T = t })
	}
	for _, f := range []func(*TA){
		func(d *TA) { d.Fmt = 0 }, func(d *TA) { d.Zip = false }, func(d *TA) { d.SVM = false }, func(d *TA) { d.Anon = false }, func(d *TA) { d.Black = nil },
	} {
		try(f)
	}
	return out
}

func (c *TA) setup(fs *sim.FS) ([]string, *Table) {
	tab := c.T.Build()
	name := "in.afm"
	var b []byte
	if c.Fmt == 2 {
		name = "in.arff"
		b = tab.ARFF(true, &sim.RNG{S: c.T.Seed + 9}, false)
	} else {
		b = tab.AFM(c.Fmt == 1, nil, true, false)
		if c.Zip {
			b = zipped("a", b)
		}
	}
	fs.Put(name, b)
	a := []string{"-data", name, "-out", "out.fm"}
	if c.SVM {
		a = append(a, "-libsvmtarget", c.T.target())
	}
	if c.Anon {
		a = append(a, "-anontarget", c.T.target())
	}
	if len(c.Black) > 0 {
		fs.Put("black.txt", blackList(c.Black, c.T.Seed))
		a = append(a, "-blacklist", "black.txt")
	}
	return a, tab
}

// Job is a run of any of the tools.
type Job struct {
	Tool string `json:"tool"`
	G    *GF    `json:"g,omitempty"`
	A    *AF    `json:"a,omitempty"`
	L    *LC    `json:"l,omitempty"`
	N    *NF    `json:"n,omitempty"`
	T    *TA    `json:"ta,omitempty"`
}

func genJob(r *sim.RNG, tool string) Job {
	j := Job{Tool: tool}
	switch tool {
	case "growforest":
		c := genGF(r)
		c.Prof = false
		c.OOB = r.Intn(2) == 0
		c.OOBPreds = r.Intn(2) == 0
		c.Progress = r.Intn(3) == 0
		c.Imp = r.Intn(2) == 0
		c.SelfTest = r.Intn(3) == 0
		if r.Intn(6) == 0 {
			c.Test = 1 + r.Next()%100000
			c.T.MaxCat = 3
		}
		c.Scikit = r.Intn(5) == 0
		switch r.Intn(8) {
		case 0:
			c.kind(r)
		case 1:
			c.boost(r)
		case 2:
			c.ACE = 2
			c.Trees = 1 + r.Intn(4)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			} else {
				c.SelfTest = false
			}
			c.Imp = true
		}
		c.valid()
		j.G = &c
	case "applyforest":
		c := genAF(r)
		j.A = &c
	case "leafcount":
		c := genLC(r)
		c.T.Cases = 3 + r.Intn(6)
		j.L = &c
	case "utils/nfold":
		c := genNF(r)
		j.N = &c
	case "utils/toafm":
		c := genTA(r)
		j.T = &c
	}
	return j
}

func (j Job) shrinks() []Job {
	var out []Job
	switch {
	case j.G != nil:
		for _, c := range j.G.shrinks() {
			c := c
			c.valid()
			out = append(out, Job{Tool: j.Tool, G: &c})
		}
	case j.A != nil:
		for _, c := range j.A.shrinks() {
			c := c
			out = append(out, Job{Tool: j.Tool, A: &c})
		}
	case j.L != nil:
		for _, c := range j.L.shrinks() {
			c := c
			out = append(out, Job{Tool: j.Tool, L: &c})
		}
	case j.N != nil:
		for _, c := range j.N.shrinks() {
			c := c
			out = append(out, Job{Tool: j.Tool, N: &c})
		}
	case j.T != nil:
		for _, c := range j.T.shrinks() {
			c := c
			out = append(out, Job{Tool: j.Tool, T: &c})
		}
	}
	return out
}

// setup puts the inputs in place and returns the command line.
func (j *Job) setup(fs *sim.FS) []string {
	var a []string
	switch {
	case j.G != nil:
		a = j.G.args(fs, j.G.T.Build())
	case j.A != nil:
		a, _, _ = j.A.setup(fs)
	case j.L != nil:
		a, _, _ = j.L.setup(fs)
	case j.N != nil:
		a, _ = j.N.setup(fs)
	case j.T != nil:
		a, _ = j.T.setup(fs)
	}
	return a
}

// outs lists the files the run is to write.
func (j *Job) outs() []string {
	switch {
	case j.G != nil:
		return j.G.outs()
	case j.A != nil:
		return j.A.outs()
	case j.L != nil:
		return j.L.outs()
	case j.N != nil:
		return j.N.outs()
	}
	return []string{"out.fm"}
}

// outs lists the files the run is to write.
func (c *GF) outs() []string {
	var o []string
	if !c.NoRF {
		o = append(o, "out.sf")
	}
	if c.OOBPreds {
		o = append(o, "oob.tsv")
	}
	if c.Imp {
		o = append(o, "imp.tsv")
	}
	if c.Scikit {
		o = append(o, "sk.json")
	}
	if c.Prof {
		o = append(o, "cpu.prof")
	}
	return o
}
