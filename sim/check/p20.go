package main

import "cfsim/sim"

// Grown applies a forest that growforest grew.
type Grown struct {
	GF
	A AF `json:"a"`
}

func runP20(x *Ctx, c *AF) {
	fs := sim.NewFS()
	args, sf, d := c.setup(fs)
	res := x.Tool("applyforest", args, fs, nil)
	x.MustEnd(res, "applyforest")
	c.check(x, res, fs, sf, d)
}

func runP20Grown(x *Ctx, c *Grown) {
	c.unique()
	c.Contrast, c.ConAll = 0, false
	q := runGF(x, &c.GF, false, nil, nil)
	x.MustEnd(q.Res, "growforest")
	q.load(x)
	b, _ := q.FS.Get("out.sf")
	if c.Ada && len(q.SF.Trees) == 0 {
		x.Count("boosting had nothing to do", 1) // the first tree was perfect
		return
	}
	a := c.A
	a.T = c.T
	if c.GBT > 0 {
		a.Mode, a.Votes = "sum", false
	}
	fs := sim.NewFS()
	fs.Put("in.sf", b)
	sf := *q.SF
	sf.Target = c.T.target()
	d := a.data(q.Base)
	res := x.Tool("applyforest", a.cmd(fs, d), fs, nil)
	x.MustEnd(res, "applyforest")
	a.check(x, res, fs, &sf, d)
}

func (c Grown) shrinks() []Grown {
	var out []Grown
	for _, g := range c.GF.shrinks() {
		d := c
		d.GF = g
		out = append(out, d)
	}
	for _, a := range c.A.shrinks() {
		d := c
		d.A = a
		if d.A.T == c.A.T {
			out = append(out, d)
		}
	}
	return out
}

var applyReal = []string{"applyforest", "forest reader", "data loading", "tree voting", "ballot boxes"}

func init() {
	register(&Property{ID: "P20", Quick: 60000, Real: append([]string{"growforest"}, applyReal...), Scenarios: []*Scenario{
		scen("made", 4, func(r *sim.RNG, tier string) AF { return genAF(r) }, runP20, AF.shrinks),
		scen("grown", 1, func(r *sim.RNG, tier string) Grown {
			c := Grown{GF: genGF(r)}
			if r.Intn(4) == 0 {
				c.boost(r)
				if c.GBT > 0 {
					c.Kind = ""
				}
			}
			c.Impute = false
			c.A = AF{T: c.T, Preds: true, Final: true, Fmt: r.Intn(2), Zip: r.Intn(4) == 0}
			if r.Intn(2) == 0 {
				c.A.Test = 1 + r.Next()%100000
			}
			c.A.NoTgt = r.Intn(4) == 0
			c.A.Votes = c.T.Target == "cat" && c.GBT == 0 && r.Intn(2) == 0
			return c
		}, runP20Grown, Grown.shrinks),
	}})
}
