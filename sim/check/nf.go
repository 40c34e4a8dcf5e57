package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"
)

// NF configures a run of nfold.
type NF struct {
	T       TSpec    `json:"t"`
	Folds   int      `json:"folds"`
	Unstrat bool     `json:"unstratified,omitempty"`
	SVM     bool     `json:"libsvm,omitempty"`
	ARFF    bool     `json:"arff,omitempty"`
	All     bool     `json:"all,omitempty"`
	Black   []string `json:"blacklist,omitempty"`
	Impute  bool     `json:"impute,omitempty"`
	Num     bool     `json:"num,omitempty"`
	Prec    bool     `json:"prec,omitempty"` // numbers with all their digits
	Hot     bool     `json:"onehot,omitempty"`
	MaxCats int      `json:"maxcats,omitempty"`
	NoTgt   bool     `json:"no_target,omitempty"`
	Fmt     int      `json:"fmt,omitempty"`
	Zip     bool     `json:"zip,omitempty"`
	Names   bool     `json:"names,omitempty"` // other file names
	Text    int      `json:"text,omitempty"`  // categories and cases of unusual characters
}

func genNF(r *sim.RNG) NF {
	target := "num"
	if r.Intn(3) > 0 {
		target = "cat"
	}
	c := NF{T: genTSpec(r, target), Folds: 2 + r.Intn(5), Unstrat: r.Intn(4) == 0, Impute: r.Intn(4) == 0, Num: r.Intn(4) == 0, Fmt: r.Intn(2), Zip: r.Intn(6) == 0,
		NoTgt: r.Intn(8) == 0, Names: r.Intn(4) == 0}
	if r.Intn(3) == 0 {
		c.Text = 1 + r.Intn(1000)
	}
	c.Hot = r.Intn(4) == 0
	c.Prec = r.Intn(3) == 0
	if r.Intn(20) == 0 {
		c.Folds = 7 + r.Intn(30)
	}
	switch r.Intn(5) {
	case 0:
		c.SVM = true
	case 1:
		c.ARFF = true
	case 2, 3:
		c.All = true
		c.SVM = r.Intn(4) == 0
	}
	if r.Intn(3) == 0 {
		c.Black = []string{"N:num0"}
		if r.Intn(2) == 0 {
			c.Black = append(c.Black, "C:cat0", "B:cat0", "N:nothere", c.T.target(), "N:num0")
		}
	}
	if r.Intn(4) == 0 {
		c.MaxCats = c.T.TCats + r.Intn(3)
	}
	if r.Intn(8) == 0 {
		c.Fmt = 2
	}
	c.valid()
	return c
}

// valid keeps to what the formats can carry: libsvm needs the target, with known values.
func (c *NF) valid() {
	if c.MaxCats > 0 && c.MaxCats < c.T.TCats {
		c.MaxCats = c.T.TCats
	}
	if c.SVM || c.All {
		c.NoTgt = false
		if !c.Impute {
			c.T.TMiss = 0
		}
		if c.Num && c.T.Target == "cat" && c.T.TCats > 2 {
			c.Num = false
		}
		if c.Hot && c.T.Target == "cat" && c.T.TCats > 2 {
			c.Hot = false
		}
	}
	if c.Fmt == 2 {
		c.T.Odd = false
	}
}

func (c NF) shrinks() []NF {
	var out []NF
	try := func(f func(*NF)) {
		d := c
		f(&d)
		d.valid()
		out = append(out, d)
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *NF) { d.T = t })
	}
	for _, f := range []func(*NF){
		func(d *NF) {
			if d.Folds > 2 {
				d.Folds--
			}
		},
		func(d *NF) { d.Unstrat = false }, func(d *NF) { d.Black = nil }, func(d *NF) { d.Impute = false }, func(d *NF) { d.Num = false }, func(d *NF) { d.Hot = false }, func(d *NF) { d.Prec = false },
		func(d *NF) { d.MaxCats = 0 }, func(d *NF) { d.Fmt = 0 }, func(d *NF) { d.Zip = false }, func(d *NF) { d.Names = false }, func(d *NF) { d.Text = 0 },
		func(d *NF) { d.All, d.SVM, d.ARFF = false, false, false },
		func(d *NF) { d.All, d.SVM, d.ARFF = false, true, false },
		func(d *NF) { d.All, d.SVM, d.ARFF = false, false, true },
	} {
		try(f)
	}
	return out
}

func (c *NF) formats() (afm, arff, svm bool) {
	return !c.SVM && !c.ARFF || c.All, c.ARFF || c.All, c.SVM || c.All
}

func (c *NF) name(kind string, fold int) string {
	if c.Names {
		return fmt.Sprintf("x-%s-%d.tsv", kind, fold)
	}
	return fmt.Sprintf("%s_%d.fm", kind, fold)
}

func (c *NF) outs() []string {
	var o []string
	afm, arff, svm := c.formats()
	for i := 0; i < c.Folds; i++ {
		for _, k := range []string{"train", "test"} {
			n := c.name(k, i)
			if arff {
				o = append(o, n+".arff")
			}
			if afm {
				o = append(o, n)
			}
			if svm {
				o = append(o, n+".libsvm")
			}
		}
	}
	return o
}

// setup puts the inputs in place and returns the command line and the table. Every case has a number of its own, by
// which it can be found again in formats without labels.
func (c *NF) setup(fs *sim.FS) ([]string, *Table) {
	tab := c.T.Build()
	if c.Text > 0 {
		rich := tab.rich(c.Text, c.T.target())
		for i, f := range rich.Feats {
			f.Name = tab.Feats[i].Name
		}
		for i, l := range rich.Cases {
			rich.Cases[i] = fmt.Sprintf("%s_%d", l, i)
			if l == "" {
				rich.Cases[i] = tab.Cases[i]
			}
		}
		tab = rich
	}
	if c.Prec {
		for k, f := range tab.Feats {
			for i := range f.Val {
				f.Val[i] *= 1 + 1/(3+float64(i+7*k))
			}
		}
	}
	id := &Feat{Name: "N:id", Num: true}
	for i := range tab.Cases {
		id.Val = append(id.Val, float64(i+1))
		id.Miss = append(id.Miss, false)
	}
	p := int(c.T.Seed % uint64(len(tab.Feats)+1))
	tab = &Table{Cases: tab.Cases, Feats: append(append(append([]*Feat(nil), tab.Feats[:p]...), id), tab.Feats[p:]...)}
	name := "in.afm"
	var b []byte
	if c.Fmt == 2 {
		name = "in.arff"
		b = tab.ARFF(true, &sim.RNG{S: c.T.Seed + 9}, false)
		for i := range tab.Cases {
			tab.Cases[i] = strconv.Itoa(i)
		}
	} else {
		b = tab.AFM(c.Fmt == 1, nil, true, false)
		if c.Zip {
			b = zipped("a", b)
		}
	}
	fs.Put(name, b)
	t := c.T.target()
	if c.NoTgt {
		t = "C:absent"
	}
	a := []string{"-fm", name, "-target", t}
	if c.Folds != 5 || c.T.Seed%2 == 0 { // that is what it makes anyway
		a = append(a, "-folds", strconv.Itoa(c.Folds))
	}
	if c.Names {
		a = append(a, "-train", "x-train-%v.tsv", "-test", "x-test-%v.tsv")
	}
	if len(c.Black) > 0 {
		fs.Put("black.txt", blackList(c.Black, c.T.Seed))
		a = append(a, "-blacklist", "black.txt")
	}
	for _, f := range []struct {
		n string
		v bool
	}{{"-unstratified", c.Unstrat}, {"-writelibsvm", c.SVM}, {"-writearff", c.ARFF}, {"-writeall", c.All}, {"-impute", c.Impute}, {"-num", c.Num}, {"-onehot", c.Hot}} {
		if f.v {
			a = append(a, f.n)
		}
	}
	if c.MaxCats > 0 {
		a = append(a, "-maxcats", strconv.Itoa(c.MaxCats))
	}
	return a, tab
}

// Cell is an expected value: any of several where the most frequent category is tied.
type Cell struct {
	miss bool
	num  bool
	val  float64
	strs []string
	fuzz bool // a computed number
}

func (e Cell) ok(s string) bool {
	if e.miss {
		return s == "NA" || s == "?"
	}
	if e.num {
		v, err := strconv.ParseFloat(s, 64)
		return err == nil && (v == e.val || e.fuzz && near(v, e.val, 1e-9))
	}
	for _, t := range e.strs {
		if s == t {
			return true
		}
	}
	return false
}

func (e Cell) String() string {
	switch {
	case e.miss:
		return "missing"
	case e.num:
		return strconv.FormatFloat(e.val, 'g', -1, 64)
	}
	return strings.Join(e.strs, " or ")
}

// Col is an expected column.
type Col struct {
	name  string
	num   bool
	cells []Cell
	order []string // categories in order of first appearance
}

func (f *Feat) col(impute bool) *Col {
	c := &Col{name: f.Name, num: f.Num}
	count := map[string]int{}
	sum, n, best := 0.0, 0, 0
	for i, m := range f.Miss {
		if m {
			continue
		}
		n++
		if f.Num {
			sum += f.Val[i]
			continue
		}
		if count[f.Str[i]] == 0 {
			c.order = append(c.order, f.Str[i])
		}
		count[f.Str[i]]++
		if count[f.Str[i]] > best {
			best = count[f.Str[i]]
		}
	}
	var modes []string
	for s, k := range count {
		if k == best {
			modes = append(modes, s)
		}
	}
	sort.Strings(modes)
	for i, m := range f.Miss {
		e := Cell{miss: m, num: f.Num}
		if f.Num {
			e.val = f.Val[i]
		} else {
			e.strs = []string{f.Str[i]}
		}
		if m && impute {
			e.miss = false
			e.val, e.fuzz = sum/float64(n), true
			e.strs = modes
		}
		c.cells = append(c.cells, e)
	}
	return c
}

// impute replaces the missing values.
func (c *Col) impute() *Col {
	f := &Feat{Name: c.name, Num: c.num}
	for _, e := range c.cells {
		if len(e.strs) > 1 {
			return c // nothing is missing any more
		}
		f.Miss = append(f.Miss, e.miss)
		f.Val = append(f.Val, e.val)
		s := ""
		if len(e.strs) > 0 {
			s = e.strs[0]
		}
		f.Str = append(f.Str, s)
	}
	d := f.col(true)
	for i := range d.cells {
		d.cells[i].fuzz = d.cells[i].fuzz || c.cells[i].fuzz
	}
	d.order = c.order
	return d
}

// encode turns a categorical column into numerical ones.
func (c *Col) encode() []*Col {
	if c.num {
		return []*Col{c}
	}
	var out []*Col
	if len(c.order) <= 2 {
		d := &Col{name: c.name, num: true}
		for _, e := range c.cells {
			n := Cell{num: true, miss: e.miss}
			if len(c.order) > 1 && len(e.strs) == 1 && e.strs[0] == c.order[1] {
				n.val = 1
			}
			if len(e.strs) > 1 && !e.miss {
				n.val, n.strs = -1, e.strs // either
			}
			d.cells = append(d.cells, n)
		}
		return []*Col{d}
	}
	for _, s := range c.order {
		d := &Col{name: c.name + "==" + s, num: true}
		for _, e := range c.cells {
			n := Cell{num: true, miss: e.miss}
			if len(e.strs) == 1 && e.strs[0] == s {
				n.val = 1
			}
			if len(e.strs) > 1 && !e.miss {
				n.val, n.strs = -1, e.strs
			}
			d.cells = append(d.cells, n)
		}
		out = append(out, d)
	}
	return out
}

// onehot turns a categorical column of more than two categories into one of true and false for each.
func (c *Col) onehot() []*Col {
	if c.num || len(c.order) <= 2 {
		return []*Col{c}
	}
	var out []*Col
	for _, s := range c.order {
		d := &Col{name: c.name + "==" + s, order: []string{"false", "true"}}
		for _, e := range c.cells {
			n := Cell{miss: e.miss, strs: []string{"false"}}
			for _, t := range e.strs {
				if t == s && len(e.strs) == 1 {
					n.strs = []string{"true"}
				} else if t == s {
					n.strs = []string{"false", "true"}
				}
			}
			d.cells = append(d.cells, n)
		}
		out = append(out, d)
	}
	return out
}

// okNum also admits either value where a tie left the category open.
func (e Cell) okNum(s string) bool {
	if e.num && e.val == -1 && len(e.strs) > 1 {
		return s == "0" || s == "1"
	}
	return e.ok(s)
}

// expected lists the columns the folds are made of.
func (c *NF) expected(tab *Table) []*Col {
	var cols []*Col
	for _, f := range tab.Feats {
		black := false
		for _, b := range c.Black {
			black = black || b == f.Name && (b != c.T.target() || c.NoTgt)
		}
		if black || c.MaxCats > 0 && !f.Num && len(f.labels()) > c.MaxCats {
			continue
		}
		col := f.col(c.Impute)
		hot := []*Col{col}
		if c.Hot {
			hot = col.onehot()
		}
		for _, h := range hot {
			if c.Num {
				cols = append(cols, h.encode()...)
			} else {
				cols = append(cols, h)
			}
		}
	}
	return cols
}

// fold is what a fold's file says: the cases by number, and their fields by column.
type foldFile struct {
	name string
	ids  []int
}

// check judges the folds.
func (c *NF) check(x *Ctx, fs *sim.FS, tab *Table) {
	cols := c.expected(tab)
	n := len(tab.Cases)
	caseOf := map[string]int{}
	for i, l := range tab.Cases {
		caseOf[l] = i
	}
	afm, arff, svm := c.formats()
	get := func(name string) []byte {
		b, ok := fs.Get(name)
		x.Check(ok, "no-file", "there is no file %s", name)
		return b
	}
	idcol := -1
	tcol := -1
	for i, k := range cols {
		if k.name == "N:id" {
			idcol = i
		}
		if k.name == c.T.target() {
			tcol = i
		}
	}
	// cell compares one field
	cell := func(file string, id int, k *Col, s string) {
		if !k.cells[id].okNum(s) {
			x.Fail("value", "%s: case %s, feature %s: value %q, the source has %v", file, tab.Cases[id], k.name, s, k.cells[id])
		}
	}
	id := func(file, s string) int {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil || v != float64(int(v)) || v < 1 || int(v) > n {
			x.Fail("case", "%s holds a case numbered %q", file, s)
		}
		return int(v) - 1
	}
	readAFM := func(file string) []int {
		rows := readCSV(get(file), '\t')
		if len(rows) != len(cols)+1 {
			x.Fail("features", "%s has %d lines for %d features", file, len(rows), len(cols))
		}
		var ids []int
		for _, l := range rows[0][1:] {
			i, ok := caseOf[l]
			x.Check(ok, "case", "%s holds the case %q, which is not in the data", file, l)
			ids = append(ids, i)
		}
		for j, row := range rows[1:] {
			if row[0] != cols[j].name || len(row) != len(ids)+1 {
				x.Fail("features", "%s line %d is for feature %q with %d values, expected %s with %d", file, j+2, row[0], len(row)-1, cols[j].name, len(ids))
			}
			for k, s := range row[1:] {
				cell(file, ids[k], cols[j], s)
			}
		}
		return ids
	}
	readARFF := func(file string) []int {
		s := string(get(file))
		at := strings.Index(s, "@DATA\n")
		x.Check(at >= 0, "arff", "%s has no data section", file)
		j := 0
		for _, l := range strings.Split(s[:at], "\n") {
			if !strings.HasPrefix(l, "@ATTRIBUTE ") {
				continue
			}
			if j >= len(cols) {
				x.Fail("features", "%s has more than %d features", file, len(cols))
			}
			k := cols[j]
			j++
			rest := strings.TrimPrefix(l, "@ATTRIBUTE "+arffName(k.name)+" ")
			if rest == l {
				x.Fail("features", "%s: %q where feature %s belongs", file, l, k.name)
			}
			if k.num {
				x.Check(rest == "NUMERIC", "arff", "%s: %q for a numerical feature", file, l)
				continue
			}
			for _, v := range k.order {
				x.Check(c.Text > 0 || strings.Contains(strings.NewReplacer("{", ",", "}", ",").Replace(rest), ","+v+","), "arff", "%s: %q lacks the category %q", file, l, v)
			}
		}
		x.Check(j == len(cols), "features", "%s has %d features, expected %d", file, j, len(cols))
		var ids []int
		for _, row := range readCSV([]byte(s[at+6:]), ',') {
			if len(row) != len(cols) {
				x.Fail("features", "%s: %d fields in %q, expected %d", file, len(row), row, len(cols))
			}
			i := id(file, row[idcol])
			ids = append(ids, i)
			for j, v := range row {
				cell(file, i, cols[j], v)
			}
		}
		return ids
	}
	var svmCols []*Col
	svmID := 0
	if svm {
		for j, k := range cols {
			if j == tcol {
				continue
			}
			svmCols = append(svmCols, k.impute().encode()...)
		}
		for j, k := range svmCols {
			if k.name == "N:id" {
				svmID = j + 1
			}
		}
	}
	readSVM := func(file string) []int {
		var ids []int
		s := strings.TrimSuffix(string(get(file)), "\n")
		if s == "" {
			return nil
		}
		for _, l := range strings.Split(s, "\n") {
			fields := strings.Split(l, " ")
			vals := map[int]string{}
			for _, f := range fields[1:] {
				p := strings.SplitN(f, ":", 2)
				j, err := strconv.Atoi(p[0])
				if err != nil || len(p) != 2 || j < 1 || j > len(svmCols) || vals[j] != "" {
					x.Fail("libsvm", "%s: field %q in %q", file, f, l)
				}
				vals[j] = p[1]
			}
			i := id(file, vals[svmID])
			ids = append(ids, i)
			for j, k := range svmCols {
				v := vals[j+1]
				if v == "" {
					v = "0"
				}
				cell(file, i, k, v)
			}
			t := cols[tcol]
			if t.num {
				if e := t.cells[i]; !e.okNum(fields[0]) {
					// six digits are written
					v, err := strconv.ParseFloat(fields[0], 64)
					if err != nil || e.val != -1 && !near(v, e.val, 1e-5) {
						x.Fail("value", "%s: case %s has target %q, the source has %v", file, tab.Cases[i], fields[0], e)
					}
				}
			} else {
				v, err := strconv.Atoi(fields[0])
				if err != nil || v < 0 || v >= len(t.order) || !t.cells[i].ok(t.order[v]) {
					x.Fail("value", "%s: case %s has target class %q of %q, the source has %v", file, tab.Cases[i], fields[0], t.order, t.cells[i])
				}
			}
		}
		return ids
	}
	read := func(kind string, fold int) []int {
		f := c.name(kind, fold)
		var ids []int
		first := ""
		for _, v := range []struct {
			on   bool
			ext  string
			read func(string) []int
		}{{afm, "", readAFM}, {arff, ".arff", readARFF}, {svm, ".libsvm", readSVM}} {
			if !v.on {
				continue
			}
			got := v.read(f + v.ext)
			if first == "" {
				first, ids = f+v.ext, got
				continue
			}
			a, b := append([]int(nil), ids...), append([]int(nil), got...)
			sort.Ints(a)
			sort.Ints(b)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				x.Fail("formats", "%s holds the cases %v, %s holds %v", first, a, f+v.ext, b)
			}
		}
		return ids
	}
	owner := map[int]int{}
	var tests [][]int
	for i := 0; i < c.Folds; i++ {
		t := read("test", i)
		for _, k := range t {
			if o, ok := owner[k]; ok {
				x.Fail("overlap", "case %s is in the testing sets of folds %d and %d", tab.Cases[k], o, i)
			}
			owner[k] = i
		}
		tests = append(tests, t)
	}
	for i := 0; i < c.Folds; i++ {
		seen := map[int]bool{}
		for _, k := range read("train", i) {
			o, ok := owner[k]
			switch {
			case seen[k]:
				x.Fail("train", "case %s is twice in the training set of fold %d", tab.Cases[k], i)
			case ok && o == i:
				x.Fail("leak", "case %s is in both the testing and the training set of fold %d", tab.Cases[k], i)
			case !ok:
				x.Fail("train", "case %s is in the training set of fold %d but in no testing set", tab.Cases[k], i)
			}
			seen[k] = true
		}
		if want := len(owner) - len(tests[i]); len(seen) != want {
			x.Fail("train", "the training set of fold %d has %d cases, the other testing sets hold %d", i, len(seen), want)
		}
	}
	strat := !c.Unstrat && tcol >= 0 && !cols[tcol].num && !c.NoTgt
	if strat {
		tf := cols[tcol]
		count := map[string]int{}
		amb := false
		for _, e := range tf.cells {
			if !e.miss {
				count[e.strs[0]]++
				amb = amb || len(e.strs) > 1
			}
		}
		if !amb {
			for i, t := range tests {
				got := map[string]int{}
				for _, k := range t {
					if tf.cells[k].miss {
						x.Fail("strata", "case %s, whose class is not known, is in stratified fold %d", tab.Cases[k], i)
					}
					got[tf.cells[k].strs[0]]++
				}
				for l, m := range count {
					if got[l] != m/c.Folds {
						x.Fail("strata", "fold %d has %d cases of class %s, expected %d of %d", i, got[l], l, m/c.Folds, m)
					}
				}
			}
		}
		x.Count("stratified divisions", 1)
	} else {
		for i, t := range tests {
			if len(t) != n/c.Folds {
				x.Fail("size", "fold %d has %d cases, expected %d", i, len(t), n/c.Folds)
			}
		}
		x.Count("unstratified divisions", 1)
	}
	x.Count("folds", c.Folds)
}

func runP17(x *Ctx, c *NF) {
	fs := sim.NewFS()
	args, tab := c.setup(fs)
	res := x.Tool("utils/nfold", args, fs, nil)
	x.MustEnd(res, "nfold")
	c.check(x, fs, tab)
	for i, l := range grab(res.Stdout, `^Wrote fold \d+\. (\d+) testing cases`) {
		b := 0
		if afm, _, _ := c.formats(); afm {
			d, _ := fs.Get(c.name("test", i))
			b = len(readCSV(d, '\t')[0]) - 1
			x.Check(b == int(l), "stated", "fold %d is stated to have %v testing cases, it has %d", i, l, b)
		}
	}
}

func init() {
	register(&Property{ID: "P17", Quick: 20000, Real: []string{"nfold", "data loading", "samplers", "fold writers (afm, arff, libsvm)", "imputation and encoding"}, Scenarios: []*Scenario{
		scen("folds", 1, func(r *sim.RNG, tier string) NF { return genNF(r) }, runP17, NF.shrinks),
	}})
}
