package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"strconv"
	"strings"

	"cfsim/sim"
)

// FSpec describes a made-up forest over the features of a table; the forest follows from it.
type FSpec struct {
	Seed    uint64  `json:"seed"`
	Trees   int     `json:"trees"`
	Depth   int     `json:"depth"`
	Missing bool    `json:"missing,omitempty"` // third branches
	Weights bool    `json:"weights,omitempty"`
	NumPred bool    `json:"numpred,omitempty"` // predict numbers whatever the target
	Inter   float64 `json:"intercept,omitempty"`
	Chain   bool    `json:"chain,omitempty"` // one branch of each split is a leaf
}

func genFSpec(r *sim.RNG) FSpec {
	f := FSpec{Seed: r.Next() % 1000000, Trees: 1 + r.Intn(8), Depth: r.Intn(5), Missing: r.Intn(2) == 0, Weights: r.Intn(3) == 0}
	if r.Intn(10) == 0 {
		f.Trees = 20 + r.Intn(20)
	}
	switch r.Intn(200) {
	case 0:
		f.Trees, f.Depth, f.Chain = 1+r.Intn(2), 50+r.Intn(400), true
	case 1:
		f.Trees, f.Depth = 100+r.Intn(300), r.Intn(3)
	}
	return f
}

func (f FSpec) shrinks() []FSpec {
	var out []FSpec
	try := func(g func(*FSpec)) {
		d := f
		g(&d)
		if d != f {
			out = append(out, d)
		}
	}
	try(func(d *FSpec) { d.Trees = (d.Trees + 1) / 2 })
	try(func(d *FSpec) {
		if d.Trees > 1 {
			d.Trees--
		}
	})
	try(func(d *FSpec) { d.Depth = d.Depth / 2 })
	try(func(d *FSpec) { d.Missing = false })
	try(func(d *FSpec) { d.Weights = false })
	try(func(d *FSpec) { d.Inter = 0 })
	return out
}

// Build makes the forest.
func (f FSpec) Build(t *Table, target string) *SF {
	r := &sim.RNG{S: sim.Mix(f.Seed, 31)}
	s := &SF{Target: target}
	if f.Inter != 0 {
		s.HasInter, s.Intercept, s.Forests = true, f.Inter, 1
	}
	for i := 0; i < f.Trees; i++ {
		w := -1.0
		if f.Weights {
			w = []float64{0, 0.25, 0.5, 1, 1.5, 3, 0.1, 0.7}[r.Intn(8)]
		}
		s.Trees = append(s.Trees, &TTree{Target: target, Weight: w, Index: strconv.Itoa(i), Root: f.node(r, t, target, f.Depth)})
	}
	return s
}

func (f FSpec) node(r *sim.RNG, t *Table, target string, depth int) *TNode {
	tf := t.get(target)
	if depth == 0 || r.Intn(5) == 0 && !f.Chain || len(t.Feats) < 2 {
		n := &TNode{}
		i := r.Intn(len(t.Cases))
		switch {
		case !f.NumPred && !tf.Num:
			n.Pred = tf.Str[i]
		case tf.Num && r.Intn(2) == 0:
			n.Pred = strconv.FormatFloat(tf.Val[i], 'g', -1, 64)
		default:
			n.Pred = strconv.FormatFloat(math.Floor((r.Float()*4-2)*1000)/1000, 'g', -1, 64)
		}
		return n
	}
	var sf *Feat
	for sf == nil || sf == tf {
		sf = t.Feats[r.Intn(len(t.Feats))]
	}
	n := &TNode{Split: true, Feat: sf.Name, Num: sf.Num}
	if sf.Num {
		n.Val = sf.Val[r.Intn(len(sf.Val))]
		if r.Intn(2) == 0 {
			n.Val = (n.Val + sf.Val[r.Intn(len(sf.Val))]) / 2
		}
	} else {
		n.Left = map[string]bool{}
		l := sf.labels()
		all := r.Intn(8) == 0
		for _, s := range l {
			if all || r.Intn(2) == 0 {
				n.Left[s] = true
			}
		}
		if r.Intn(6) == 0 {
			n.Left["not_in_the_data"] = true
		}
		if len(n.Left) == 0 && len(l) > 0 {
			n.Left[l[r.Intn(len(l))]] = true
		}
		if len(n.Left) == 0 {
			n.Left["not_in_the_data"] = true
		}
	}
	if f.Chain {
		n.L, n.R = f.node(r, t, target, 0), f.node(r, t, target, depth-1)
		if r.Intn(2) == 0 {
			n.L, n.R = n.R, n.L
		}
		return n
	}
	n.L = f.node(r, t, target, depth-1)
	n.R = f.node(r, t, target, depth-1)
	if f.Missing && r.Intn(3) > 0 {
		n.M = f.node(r, t, target, depth-1)
	}
	return n
}

// Emit writes the forest file.
func (s *SF) Emit() []byte {
	var b strings.Builder
	if s.HasInter {
		fmt.Fprintf(&b, "FOREST=0,TARGET=\"%s\",INTERCEPT=%v\n", s.Target, s.Intercept)
	} else if s.Forests > 0 {
		fmt.Fprintf(&b, "FOREST=0,TARGET=\"%s\"\n", s.Target)
	}
	for i, t := range s.Trees {
		t.emit(&b, i)
	}
	return []byte(b.String())
}

// AF configures a run of applyforest.
type AF struct {
	T     TSpec  `json:"t"`
	F     FSpec  `json:"f"`
	Test  uint64 `json:"test,omitempty"` // seed of other data (0: the same)
	NoTgt bool   `json:"no_target,omitempty"`
	Mode  string `json:"mode,omitempty"` // mean, sum, mode
	Expit bool   `json:"expit,omitempty"`
	Preds bool   `json:"preds,omitempty"`
	Votes bool   `json:"votes,omitempty"`
	Fmt   int    `json:"fmt,omitempty"` // 0 rows, 1 columns, 2 arff
	Zip   bool   `json:"zip,omitempty"`
	Final bool   `json:"final,omitempty"`
	FCut  bool   `json:"fcut,omitempty"`  // no newline after the last line of the forest
	Multi int    `json:"multi,omitempty"` // not the header's position, but further forests appended after it
}

func genAF(r *sim.RNG) AF {
	target := "num"
	if r.Intn(2) == 0 {
		target = "cat"
	}
	c := AF{T: genTSpec(r, target), F: genFSpec(r), Preds: r.Intn(8) > 0, Fmt: r.Intn(2), Zip: r.Intn(5) == 0, Final: r.Intn(3) > 0, FCut: r.Intn(4) == 0}
	if r.Intn(2) == 0 {
		c.Test = 1 + r.Next()%100000
	}
	if r.Intn(6) == 0 {
		c.Fmt = 2
	}
	c.NoTgt = r.Intn(5) == 0
	switch r.Intn(5) {
	case 0:
		c.Mode = "sum"
		c.F.NumPred = true
		c.Expit = r.Intn(2) == 0
		if r.Intn(3) > 0 {
			c.F.Inter = math.Floor((r.Float()*6-3)*100) / 100
		}
	case 1:
		c.Mode = "mean"
		c.F.NumPred = true
		if target == "num" && r.Intn(2) == 0 {
			c.F.Inter = 1.5
		}
	case 2:
		c.Mode = "mode"
	}
	if target == "num" && c.Mode == "" && r.Intn(6) == 0 {
		c.F.Inter = -2.25
	}
	if c.F.Inter != 0 && r.Intn(3) == 0 {
		c.Expit = true
	}
	c.Votes = c.cat() && r.Intn(2) == 0
	c.valid()
	return c
}

// cat says whether the votes are for categories.
func (c *AF) cat() bool {
	return c.Mode == "mode" || c.Mode == "" && c.T.Target == "cat"
}

// valid keeps to combinations that have a meaning: an error needs votes of the target's type, vote totals need
// categories, and features named by the forest are in the data.
func (c *AF) valid() {
	if c.Mode == "mode" && c.T.Target == "num" || c.Mode == "mean" && c.T.Target == "cat" {
		c.NoTgt = true
	}
	if c.cat() {
		c.F.Inter = 0
		if c.T.Target == "cat" {
			c.F.NumPred = false
		}
	} else {
		c.Votes = false
		if c.T.Target == "cat" {
			c.F.NumPred = true
		}
	}
	if c.Fmt == 2 {
		c.T.Odd = false
	}
	if c.Expit && c.Mode != "sum" && c.F.Inter == 0 {
		c.Expit = false
	}
	if c.T.Nums+c.T.Cats == 0 {
		c.T.Nums = 1
	}
}

func (c AF) shrinks() []AF {
	var out []AF
	try := func(f func(*AF)) {
		d := c
		f(&d)
		d.valid()
		if d != c {
			out = append(out, d)
		}
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *AF) { d.T = t })
	}
	for _, t := range c.F.shrinks() {
		t := t
		try(func(d *AF) { d.F = t })
	}
	for _, f := range []func(*AF){
		func(d *AF) { d.Test = 0 }, func(d *AF) { d.Fmt = 0 }, func(d *AF) { d.Zip = false }, func(d *AF) { d.Final = true },
		func(d *AF) { d.FCut = false }, func(d *AF) { d.Votes = false }, func(d *AF) { d.Expit = false }, func(d *AF) { d.NoTgt = false },
		func(d *AF) { d.Mode = "" },
	} {
		try(f)
	}
	return out
}

// data is the table the forest is applied to.
func (c *AF) data(tab *Table) *Table {
	d := tab
	if c.Test != 0 {
		d = testTable(tab, c.Test)
	}
	if c.NoTgt {
		e := &Table{Cases: d.Cases}
		for _, f := range d.Feats {
			if f.Name != c.T.target() {
				e.Feats = append(e.Feats, f)
			}
		}
		d = e
	}
	if c.Fmt == 2 {
		e := &Table{Feats: d.Feats}
		for i := range d.Cases {
			e.Cases = append(e.Cases, strconv.Itoa(i))
		}
		d = e
	}
	return d
}

// setup puts the inputs in place and returns the command line, the forest and the data.
func (c *AF) setup(fs *sim.FS) ([]string, *SF, *Table) {
	tab := c.T.Build()
	sf := c.F.Build(tab, c.T.target())
	d := c.data(tab)
	b := sf.Emit()
	if c.FCut {
		b = bytes.TrimSuffix(b, []byte("\n"))
	}
	fs.Put("in.sf", b)
	return c.cmd(fs, d), sf, d
}

// cmd puts the data in place and returns the command line.
func (c *AF) cmd(fs *sim.FS, d *Table) []string {
	name := "data.afm"
	var b []byte
	switch c.Fmt {
	case 0, 1:
		b = d.AFM(c.Fmt == 1, nil, c.Final, false)
	case 2:
		name = "data.arff"
		b = d.ARFF(c.Final, &sim.RNG{S: c.T.Seed + 9}, false)
	}
	if c.Zip && c.Fmt != 2 {
		b = zipped(name, b)
	}
	fs.Put(name, b)
	a := []string{"-fm", name, "-rfpred", "in.sf"}
	if c.Mode != "" {
		a = append(a, "-"+c.Mode)
	}
	if c.Expit {
		a = append(a, "-expit")
	}
	if c.Preds {
		a = append(a, "-preds", "preds.tsv")
	}
	if c.Votes {
		a = append(a, "-votes", "votes.tsv")
	}
	return a
}

// outs lists the files the run writes.
func (c *AF) outs() []string {
	var o []string
	if c.Preds {
		o = append(o, "preds.tsv")
	}
	if c.Votes {
		o = append(o, "votes.tsv")
	}
	return o
}

// close says whether a prediction agrees with the expected one up to the rounding of sums of leaf values.
func (c *AF) close(p, want float64, sf *SF) bool {
	scale := math.Abs(sf.Intercept)
	for _, t := range sf.Trees {
		t.Root.each(0, func(n *TNode, _ int) {
			if v, err := strconv.ParseFloat(n.Pred, 64); err == nil && math.Abs(v) > scale {
				scale = math.Abs(v)
			}
		})
	}
	return near(p, want, 0) || math.Abs(p-want) <= 1e-12*float64(10+len(sf.Trees))*scale
}

// check compares what applyforest wrote with the votes of the forest's trees on the data.
func (c *AF) check(x *Ctx, res *sim.Result, fs *sim.FS, sf *SF, d *Table) {
	n := len(d.Cases)
	v := newVotes(n)
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	for _, t := range sf.Trees {
		w := 1.0
		if t.Weight >= 0 {
			w = t.Weight
		}
		if err := v.vote(t, d, all, w); err != nil {
			x.Fail("harness", "%v", err)
		}
	}
	tf := d.get(sf.Target)
	var said []string
	if c.Preds {
		b, ok := fs.Get("preds.tsv")
		x.Check(ok, "no-file", "there is no prediction file")
		rows := tsv(b)
		x.Check(len(rows) == n, "rows", "%d predictions for %d cases", len(rows), n)
		for i, row := range rows {
			if len(row) != 3 {
				x.Fail("row", "row %d of the predictions is %q", i, row)
			}
			if row[0] != d.Cases[i] {
				x.Fail("label", "row %d is for case %q, expected %q", i, row[0], d.Cases[i])
			}
			act := "NA"
			if tf != nil {
				act = tf.GetStr(i)
			}
			if row[2] != act {
				x.Fail("actual", "row %d gives the actual value %q, it is %q", i, row[2], act)
			}
			said = append(said, row[1])
			if c.cat() {
				w := v.winners(i)
				if w == nil {
					if row[1] != "NA" {
						x.Fail("phantom", "case %d has no votes but the prediction %q", i, row[1])
					}
				} else if !w[row[1]] {
					x.Fail("winner", "case %d: prediction %q, its votes are %v", i, row[1], v.cat[i])
				}
				continue
			}
			var want float64
			switch {
			case c.Mode == "sum":
				want = v.sum[i] + sf.Intercept
			case sf.Intercept != 0:
				if v.n[i] > 0 {
					want = v.sum[i] / v.n[i]
				}
				want += sf.Intercept
			case v.n[i] == 0:
				if row[1] != "NA" {
					x.Fail("phantom", "case %d has no votes but the prediction %q", i, row[1])
				}
				continue
			default:
				want = v.sum[i] / v.n[i]
			}
			if c.Expit {
				want = 1 / (1 + math.Exp(-want))
			}
			if p, err := strconv.ParseFloat(row[1], 64); err != nil || !c.close(p, want, sf) {
				x.Fail("value", "case %d: prediction %s, its votes make it %v", i, row[1], want)
			}
		}
		x.Count("predictions", n)
	}
	if c.Votes {
		b, ok := fs.Get("votes.tsv")
		x.Check(ok, "no-file", "there is no file of vote totals")
		rows := tsv(b)
		x.Check(len(rows) == n+1, "vote-rows", "%d lines of vote totals for %d cases", len(rows), n)
		cols := map[string]bool{}
		for _, l := range rows[0][1:] {
			if cols[l] {
				x.Fail("vote-column", "two columns of vote totals for %q", l)
			}
			cols[l] = true
		}
		for i, row := range rows[1:] {
			if len(row) != len(rows[0]) || row[0] != d.Cases[i] {
				x.Fail("vote-row", "vote totals of case %d (%s) under %q: %q", i, d.Cases[i], rows[0], row)
			}
			for j, s := range row[1:] {
				l := rows[0][j+1]
				if p, err := strconv.ParseFloat(s, 64); err != nil || !near(p, v.cat[i][l], 1e-12) {
					x.Fail("vote-total", "case %d: %s votes for %q, counted %v", i, s, l, v.cat[i][l])
				}
			}
			for l, w := range v.cat[i] {
				if w != 0 && !cols[l] {
					x.Fail("vote-lost", "case %d has %v votes for %q, which has no column in %q", i, w, l, rows[0])
				}
			}
		}
		x.Count("vote totals", n)
	}
	if tf != nil && c.Mode != "sum" && goodTarget(tf) {
		want := v.error(tf)
		if !tf.Num && said != nil {
			lo, hi := catError(tf, func(i int, s string) float64 {
				if said[i] == s {
					return 1
				}
				return 0
			})
			want = [2]float64{lo, hi}
		}
		got := grab(res.Stdout, `^Error: (\S+)$`)
		x.Check(len(got) == 1, "report", "%d errors in the report", len(got))
		if !within(got[0], want) {
			x.Fail("error", "the reported error is %v, the predictions give %v", got[0], want)
		}
		x.Count("errors checked", 1)
	}
}

// readCSV reads delimited text.
func readCSV(b []byte, comma rune) [][]string {
	r := csv.NewReader(bytes.NewReader(b))
	r.Comma = comma
	r.FieldsPerRecord = -1
	out, err := r.ReadAll()
	if err != nil {
		return nil
	}
	return out
}
