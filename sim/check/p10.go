package main

import (
	"bytes"
	"fmt"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// steady removes from a report what it says about the time that passed.
func steady(out []byte) string {
	var l []string
	for _, s := range strings.Split(string(out), "\n") {
		if !strings.HasPrefix(s, "Total training time") {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var s, t string
		if i < len(la) {
			s = la[i]
		}
		if i < len(lb) {
			t = lb[i]
		}
		if s != t || i >= len(la) || i >= len(lb) {
			return fmt.Sprintf("line %d: %q and %q", i+1, tail(s, 300), tail(t, 300))
		}
	}
	return "no difference"
}

// runP10 runs a tool twice in environments that differ in everything but the inputs and the random numbers.
func runP10(x *Ctx, j *Job) {
	var opts sim.Options
	fs := sim.NewFS()
	args := j.setup(fs)
	in := fs.Clone()
	res := x.Tool(j.Tool, args, fs, func(o *sim.Options) { opts = *o })
	x.MustEnd(res, j.Tool)
	fs2 := in
	res2 := x.Tool(j.Tool, args, fs2, func(o *sim.Options) {
		o.RandSalt = opts.RandSalt
		o.RandMode = opts.RandMode
		if j.Tool == "utils/nfold" {
			o.RandSeed = opts.RandSeed // it has no option to fix its seed
		}
		if o.Chunk == 0 && opts.Chunk == 0 {
			o.Chunk = 2 + int(o.ChunkSeed%3)
		}
	})
	x.MustEnd(res2, j.Tool)
	if a, b := steady(res.Stdout), steady(res2.Stdout); a != b {
		x.Fail("report", "the reports of two equal runs differ: %s", firstDiff(a, b))
	}
	a, b := fs.Names(), fs2.Names()
	if strings.Join(a, " ") != strings.Join(b, " ") {
		x.Fail("files", "two equal runs leave the files %v and %v", a, b)
	}
	for _, n := range a {
		p, _ := fs.Get(n)
		q, _ := fs2.Get(n)
		if !bytes.Equal(p, q) {
			x.Fail("output", "%s differs between two equal runs: %s", n, firstDiff(string(p), string(q)))
		}
	}
	x.Count("files compared", len(a))
}

// Again grows forests through the library, one after another.
type Again struct {
	GF
	Other TSpec `json:"other"`
}

func runAgain(x *Ctx, c *Again) {
	tab := c.T.Build()
	data := tab.AFM(c.Cols, nil, true, false)
	other := c.Other.Build().AFM(false, nil, true, false)
	var out [4]string
	grow := func(data []byte, fm *CF.FeatureMatrix, target string) (string, *CF.FeatureMatrix) {
		if fm == nil {
			fm = CF.ParseAFM(bytes.NewReader(data))
		}
		ti := fm.Map[target]
		var cand []int
		for i := range fm.Data {
			if i != ti {
				cand = append(cand, i)
			}
		}
		leaf := 1
		if target == targetN {
			leaf = 4
		}
		n := len(fm.CaseLabels)
		f := CF.GrowRandomForest(fm, fm.Data[ti].(CF.Target), cand, n, 1+len(cand)/2, c.Trees, leaf, c.MaxDepth, c.SplitM, c.Force, c.Vet, false, CF.NewRunningMeans(len(fm.Data)))
		var b bytes.Buffer
		CF.NewForestWriter(&b).WriteForest(f)
		var bb CF.VoteTallyer = CF.NewNumBallotBox(n)
		if target == targetC {
			bb = CF.NewCatBallotBox(n)
		}
		for _, t := range f.Trees {
			t.Vote(fm, bb)
		}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%s ", bb.Tally(i))
		}
		fmt.Fprintf(&b, "%v\n", bb.TallyError(fm.Data[ti]))
		return b.String(), fm
	}
	res := x.Lib(nil, nil, func() {
		mark := sim.RandMark()
		var fm *CF.FeatureMatrix
		out[0], fm = grow(data, nil, c.T.target())
		sim.RandReset(mark)
		out[1], _ = grow(data, fm, c.T.target()) // on the same matrix
		grow(other, nil, c.Other.target())
		sim.RandReset(mark)
		out[2], _ = grow(data, fm, c.T.target())
		sim.RandReset(mark)
		out[3], _ = grow(data, nil, c.T.target())
	})
	x.MustEnd(res, "growing forests one after another")
	for i := 1; i < 4; i++ {
		if out[i] != out[0] {
			x.Fail("again", "growing again with the same random numbers (%s) gives another forest: %s", []string{"", "on the same data", "on the same data after other forests", "on the data loaded anew"}[i], firstDiff(out[0], out[i]))
		}
	}
	x.Count("forests grown again", 3)
}

func (c Again) shrinks() []Again {
	var out []Again
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		out = append(out, d)
	}
	return out
}

func init() {
	job := func(tool string, mod func(r *sim.RNG, j *Job)) func(r *sim.RNG, tier string) Job {
		return func(r *sim.RNG, tier string) Job {
			j := genJob(r, tool)
			if mod != nil {
				mod(r, &j)
			}
			return j
		}
	}
	register(&Property{ID: "P10", Quick: 20000, Real: append(append([]string{"nfold", "fold writers"}, growReal...), applyReal...), Scenarios: []*Scenario{
		scen("growforest", 4, job("growforest", func(r *sim.RNG, j *Job) {
			j.G.Cores = 1
			j.G.Seeded = false
		}), runP10, Job.shrinks),
		scen("applyforest", 2, job("applyforest", nil), runP10, Job.shrinks),
		scen("nfold", 1, job("utils/nfold", nil), runP10, Job.shrinks),
		scen("toafm", 1, job("utils/toafm", nil), runP10, Job.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) Again {
			c := Again{GF: genGF(r)}
			c.T.TMiss = 0
			c.Other = genTSpec(r, []string{"num", "cat"}[r.Intn(2)])
			c.Other.TMiss = 0
			return c
		}, runAgain, Again.shrinks),
	}})
}
