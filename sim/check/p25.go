package main

import (
	"bytes"
	"fmt"
	"strings"

	"cfsim/sim"
)

// MR is a run and what is changed about it that must not change the forest.
type MR struct {
	GF
	Rel string `json:"rel"` // reports, labels, storage, excluded, unknown, more, cores
	Arg uint64 `json:"arg"`
}

func (c MR) shrinks() []MR {
	var out []MR
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		d.valid()
		out = append(out, d)
	}
	return out
}

// valid leaves out what the relation does not hold for.
func (c *MR) valid() {
	c.Seeded, c.NoRF = false, false
	if c.Rel != "cores" {
		c.Cores = 1
	}
	c.Multi = false
	switch c.Rel {
	case "reports":
		c.Progress = c.Progress && c.GBT == 0
	case "labels", "storage":
	case "excluded":
		c.Contrast, c.ConAll = 0, false // contrasts may be drawn from excluded features
		if c.Kind == "trans" || c.Kind == "density" {
			c.Kind = "" // look at all features
		}
		if len(c.Black) == 0 && c.BlockRE == "" && c.InclRE == "" {
			c.BlockRE = "num0|cat0"
		}
	case "unknown":
		c.Contrast, c.ConAll, c.Impute, c.ShufRE, c.ACE, c.Cutoff, c.Permute = 0, false, false, "", 0, 0, false
		if c.T.TMiss == 0 {
			c.T.TMiss = 20
		}
		c.GBT, c.Ada = 0, false // sums over leaves include the cases
		if c.Kind == "adacost" {
			c.Kind = ""
		}
		if c.Kind == "trans" || c.Kind == "density" {
			c.Kind = ""
		}
		c.SelfTest, c.Test = false, 0
	case "more":
		c.ACE, c.Cutoff = 0, 0
	case "cores":
		c.Ada = c.GBT == 0
	}
}

// change makes the other run: its configuration and its table.
func (c *MR) change() (GF, *Table) {
	r := &sim.RNG{S: sim.Mix(c.Arg, 5)}
	d := c.GF
	t := c.T.Build()
	switch c.Rel {
	case "reports":
		flip := func(b *bool) {
			if r.Intn(2) == 0 {
				*b = !*b
			}
		}
		flip(&d.OOB)
		flip(&d.OOBPreds)
		flip(&d.Imp)
		flip(&d.SelfTest)
		flip(&d.Scikit)
		flip(&d.Prof)
		if c.GBT == 0 {
			flip(&d.Progress)
		}
		if r.Intn(2) == 0 && d.Test == 0 {
			d.Test = 1 + r.Next()%1000000
		} else if r.Intn(2) == 0 {
			d.Test = 0
		}
	case "labels":
		for i := range t.Cases {
			t.Cases[i] = unusual[r.Intn(len(unusual)-9)]
			if i == 0 {
				t.Cases[i] = "x"
			}
		}
	case "storage":
		d.Cols, d.Zip = r.Intn(2) == 0, r.Intn(2) == 0
	case "excluded":
		q := &GFRun{C: &c.GF}
		for _, f := range t.Feats {
			if f.Name == c.T.target() || f.Name == "C:stratum" || q.allowed(f.Name) {
				continue
			}
			miss := 0
			switch r.Intn(4) {
			case 0:
				miss = 100
			case 1:
				miss = 30
			}
			for i := range f.Miss {
				f.Miss[i] = r.Intn(100) < miss
				if f.Num {
					f.Val[i] = float64(r.Intn(50)) / 7
				} else {
					f.Str[i] = fmt.Sprintf("v%d", r.Intn(40))
				}
			}
		}
	case "unknown":
		tf := t.get(c.T.target())
		for _, f := range t.Feats {
			if f == tf || !f.Num {
				continue
			}
			for i := range f.Miss {
				if tf.Miss[i] {
					f.Val[i] = (r.Float() - 0.5) * 10
				}
			}
		}
	case "more":
		d.Trees += 1 + r.Intn(8)
		if r.Intn(40) == 0 {
			d.Trees += 100
		}
	case "cores":
		d.Cores = 1 + r.Intn(8)
	}
	return d, t
}

func runP25(x *Ctx, c *MR) {
	var opts sim.Options
	a := runGF(x, &c.GF, false, func(o *sim.Options) { opts = *o }, nil)
	x.MustEnd(a.Res, "growforest")
	d, t := c.change()
	b := runGF(x, &d, false, func(o *sim.Options) {
		o.RandSalt, o.RandMode, o.RandSeed = opts.RandSalt, opts.RandMode, opts.RandSeed
	}, func(q *GFRun) {
		data := t.AFM(d.Cols, nil, true, false)
		if d.Zip {
			data = zipped("data.afm", data)
		}
		q.FS.Put("data.afm", data)
	})
	x.MustEnd(b.Res, "growforest")
	what := map[string]string{"reports": "with other reports requested", "labels": "with other case labels", "storage": "with the data stored another way", "excluded": "with other values of excluded features",
		"unknown": "with other values in cases without a known target", "more": "with more trees asked for", "cores": "with another number of cores"}[c.Rel]
	p, ok := a.FS.Get("out.sf")
	q, ok2 := b.FS.Get("out.sf")
	x.Check(ok && ok2, "no-forest", "a run ended with status 0 but there is no forest file")
	if c.Rel == "more" {
		x.Check(bytes.HasPrefix(q, p), "first-trees", "the forest of %d trees does not begin with that of %d: %s", d.Trees, c.Trees, firstDiff(string(p), string(q)))
		if !c.Ada { // a perfect tree ends boosting
			n, m := strings.Count(string(p), "TREE="), strings.Count(string(q), "TREE=")
			x.Check(n == c.Trees && m == d.Trees, "tree-count", "%d and %d trees were asked for, %d and %d are saved", c.Trees, d.Trees, n, m)
		}
		x.Count("first trees compared", c.Trees)
		return
	}
	if !bytes.Equal(p, q) {
		x.Fail("forest", "%s the forest is another one: %s", what, firstDiff(string(p), string(q)))
	}
	x.Count("forests compared", 1)
	if c.Imp && d.Imp {
		p, _ := a.FS.Get("imp.tsv")
		q, _ := b.FS.Get("imp.tsv")
		if !bytes.Equal(p, q) {
			x.Fail("importance", "%s the importance scores are others: %s", what, firstDiff(string(p), string(q)))
		}
		x.Count("importance scores compared", 1)
	}
}

func init() {
	rel := func(name string, w int) *Scenario {
		return scen(name, w, func(r *sim.RNG, tier string) MR {
			c := MR{GF: genGF(r), Rel: name, Arg: r.Next() % 1000000}
			switch r.Intn(6) {
			case 0:
				c.kind(r)
			case 1:
				c.boost(r)
			case 2:
				c.ACE = 2 + r.Intn(2)
				c.Trees = 1 + r.Intn(5)
				if r.Intn(2) == 0 {
					c.Cutoff = []float64{0.5, 0.05, 0.9}[r.Intn(3)]
				}
			}
			if name == "cores" && c.GBT == 0 && !c.Ada {
				c.Kind, c.ACE, c.Cutoff = "", 0, 0
				c.boost(r)
			}
			c.Jungle = r.Intn(10) == 0
			c.OOB = r.Intn(4) == 0
			c.OOBPreds = r.Intn(4) == 0
			c.Imp = r.Intn(2) == 0
			c.SelfTest = r.Intn(4) == 0
			c.Scikit = c.Kind == "" && c.GBT == 0 && !c.Ada && r.Intn(6) == 0
			c.valid()
			return c
		}, runP25, MR.shrinks)
	}
	register(&Property{ID: "P25", Quick: 15000, Real: growReal, Scenarios: []*Scenario{
		rel("reports", 3), rel("labels", 1), rel("storage", 1), rel("excluded", 3), rel("unknown", 2), rel("more", 3), rel("cores", 1),
	}})
}
