package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"
)

// LC configures a run of leafcount.
type LC struct {
	T        TSpec   `json:"t"`
	Fs       []FSpec `json:"fs"`
	Same     bool    `json:"same,omitempty"` // the first file is named twice
	Threads  int     `json:"threads"`
	Branches bool    `json:"branches,omitempty"`
	Splits   bool    `json:"splits,omitempty"`
	Cols     bool    `json:"cols,omitempty"`
	Zip      bool    `json:"zip,omitempty"`
	Test     uint64  `json:"test,omitempty"`
}

func genLC(r *sim.RNG) LC {
	target := "num"
	if r.Intn(2) == 0 {
		target = "cat"
	}
	c := LC{T: genTSpec(r, target), Threads: 1 + r.Intn(6), Branches: r.Intn(3) > 0, Splits: r.Intn(3) > 0, Cols: r.Intn(4) == 0, Zip: r.Intn(6) == 0}
	c.T.Cases = 3 + r.Intn(14)
	if c.T.MaxCat > 10 {
		c.T.MaxCat = 6
	}
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		f := genFSpec(r)
		f.Trees = 1 + r.Intn(4)
		c.Fs = append(c.Fs, f)
	}
	if r.Intn(300) == 0 { // counts past a byte
		c.Fs[0].Trees, c.Fs[0].Depth, c.Fs[0].Chain = 200+r.Intn(200), 1+r.Intn(2), false
		c.T.Cases = 3 + r.Intn(5)
	}
	c.Same = r.Intn(6) == 0
	if r.Intn(3) == 0 {
		c.Test = 1 + r.Next()%100000
	}
	return c
}

func (c LC) shrinks() []LC {
	var out []LC
	try := func(f func(*LC)) {
		d := c
		d.Fs = append([]FSpec(nil), c.Fs...)
		f(&d)
		out = append(out, d)
	}
	if len(c.Fs) > 1 {
		try(func(d *LC) { d.Fs = d.Fs[:(len(d.Fs)+1)/2] })
		try(func(d *LC) { d.Fs = d.Fs[1:] })
	}
	if c.Threads > 1 {
		try(func(d *LC) { d.Threads = (d.Threads + 1) / 2 })
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *LC) { d.T = t })
	}
	for i := range c.Fs {
		for _, f := range c.Fs[i].shrinks() {
			f := f
			try(func(d *LC) { d.Fs[i] = f })
		}
	}
	for _, f := range []func(*LC){
		func(d *LC) { d.Same = false }, func(d *LC) { d.Branches = false }, func(d *LC) { d.Splits = false },
		func(d *LC) { d.Cols = false }, func(d *LC) { d.Zip = false }, func(d *LC) { d.Test = 0 },
	} {
		try(f)
	}
	return out
}

// setup puts the inputs in place and returns the command line, the trees and the data.
func (c *LC) setup(fs *sim.FS) ([]string, []*TTree, *Table) {
	tab := c.T.Build()
	d := tab
	if c.Test != 0 {
		d = testTable(tab, c.Test)
	}
	var trees []*TTree
	var names []string
	for i, f := range c.Fs {
		s := f.Build(tab, c.T.target())
		n := fmt.Sprintf("f%d.sf", i)
		fs.Put(n, s.Emit())
		names = append(names, n)
		trees = append(trees, s.Trees...)
		if i == 0 && c.Same {
			names = append(names, n)
			trees = append(trees, s.Trees...)
		}
	}
	b := d.AFM(c.Cols, nil, true, false)
	if c.Zip {
		b = zipped("x.afm", b)
	}
	fs.Put("data.afm", b)
	a := []string{"-fm", "data.afm", "-rfpred", strings.Join(names, ","), "-leaves", "leaves.tsv", "-threads", strconv.Itoa(c.Threads)}
	if c.Branches {
		a = append(a, "-branches", "branches.tsv")
	}
	if c.Splits {
		a = append(a, "-splits", "splits.json")
	}
	return a, trees, d
}

func (c *LC) outs() []string {
	o := []string{"leaves.tsv"}
	if c.Branches {
		o = append(o, "branches.tsv")
	}
	if c.Splits {
		o = append(o, "splits.json")
	}
	return o
}

// checkCounts compares a sparse matrix with the counts expected.
func checkCounts(x *Ctx, fs *sim.FS, name string, want map[[2]int]int) {
	b, ok := fs.Get(name)
	x.Check(ok, "no-file", "there is no file %s", name)
	got := map[[2]int]int{}
	for _, row := range tsv(b) {
		if len(row) != 3 {
			x.Fail("row", "%s holds the row %q", name, row)
		}
		var v [3]int
		for k := range v {
			n, err := strconv.Atoi(row[k])
			if err != nil {
				x.Fail("row", "%s holds the row %q", name, row)
			}
			v[k] = n
		}
		if _, ok := got[[2]int{v[0], v[1]}]; ok {
			x.Fail("row", "%s gives %d, %d twice", name, v[0], v[1])
		}
		got[[2]int{v[0], v[1]}] = v[2]
	}
	for k, n := range want {
		if got[k] != n {
			x.Fail("count", "%s: the count of %v is %d, it should be %d", name, k, got[k], n)
		}
	}
	for k, n := range got {
		if want[k] != n {
			x.Fail("count", "%s: the count of %v is %d, it should be %d", name, k, n, want[k])
		}
	}
	x.Count("counts in "+name, len(want))
}

func (c *LC) check(x *Ctx, fs *sim.FS, trees []*TTree, d *Table) {
	leaves, branches := map[[2]int]int{}, map[[2]int]int{}
	splits := map[string][]string{}
	col := map[string]int{}
	for i, f := range d.Feats {
		col[f.Name] = i
	}
	for _, t := range trees {
		at := map[*TNode][]int{}
		for i := range d.Cases {
			n := t.Root
			for n != nil && n.Split {
				branches[[2]int{i, col[n.Feat]}]++
				n, _ = n.child(d, i)
			}
			if n != nil {
				at[n] = append(at[n], i)
			}
		}
		for _, cs := range at {
			for _, i := range cs {
				for _, j := range cs {
					leaves[[2]int{i, j}]++
				}
			}
		}
		t.Root.each(0, func(n *TNode, _ int) {
			if !n.Split {
				return
			}
			if n.Num {
				splits[n.Feat] = append(splits[n.Feat], strconv.FormatFloat(n.Val, 'g', -1, 64))
			} else {
				splits[n.Feat] = append(splits[n.Feat], strings.Join(sortedKeys(n.Left), ","))
			}
		})
	}
	checkCounts(x, fs, "leaves.tsv", leaves)
	if c.Branches {
		checkCounts(x, fs, "branches.tsv", branches)
	}
	if c.Splits {
		b, ok := fs.Get("splits.json")
		x.Check(ok, "no-file", "there is no file of splits")
		var got map[string][]string
		if err := json.Unmarshal(b, &got); err != nil {
			x.Fail("splits", "the splits are no json: %v: %q", err, tail(string(b), 300))
		}
		for f, l := range got {
			for i, s := range l {
				if w, err := strconv.ParseFloat(s, 64); err == nil && d.get(f) != nil && d.get(f).Num {
					l[i] = strconv.FormatFloat(w, 'g', -1, 64)
				} else {
					k := strings.Split(s, ",")
					sort.Strings(k)
					l[i] = strings.Join(k, ",")
				}
			}
			sort.Strings(l)
		}
		for f, l := range splits {
			sort.Strings(l)
			if strings.Join(l, "|") != strings.Join(got[f], "|") {
				x.Fail("splits", "the splits of %s are %q, the forests have %q", f, got[f], l)
			}
		}
		if len(got) != len(splits) {
			x.Fail("splits", "splits for %d features, the forests split on %d", len(got), len(splits))
		}
		x.Count("split lists", len(splits))
	}
}

func runP07(x *Ctx, c *LC) {
	fs := sim.NewFS()
	args, trees, d := c.setup(fs)
	res := x.Tool("leafcount", args, fs, nil)
	x.MustEnd(res, "leafcount")
	x.noRaces(res)
	c.check(x, fs, trees, d)
}

var leafReal = []string{"leafcount", "forest reader", "data loading", "leaf enumeration", "sparse counters"}

func init() {
	register(&Property{ID: "P07", Race: true, Quick: 15000, Real: leafReal, Scenarios: []*Scenario{
		scen("files", 1, func(r *sim.RNG, tier string) LC { return genLC(r) }, runP07, LC.shrinks),
	}})
}
