package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// GF configures a run of growforest.
type GF struct {
	T        TSpec     `json:"t"`
	Test     uint64    `json:"test,omitempty"` // seed of a separate test file (0: none)
	Cores    int       `json:"cores"`
	Trees    int       `json:"trees"`
	NSamples string    `json:"nsamples,omitempty"`
	MTry     string    `json:"mtry,omitempty"`
	LeafSize string    `json:"leafsize,omitempty"`
	MaxDepth int       `json:"maxdepth,omitempty"`
	SplitM   bool      `json:"splitmissing,omitempty"`
	Force    bool      `json:"force,omitempty"`
	Vet      bool      `json:"vet,omitempty"`
	EvalOOB  bool      `json:"evaloob,omitempty"`
	Extra    bool      `json:"extra,omitempty"`
	Impute   bool      `json:"impute,omitempty"`
	NoBag    bool      `json:"nobag,omitempty"`
	Balance  bool      `json:"balance,omitempty"`
	BalBy    bool      `json:"balanceby,omitempty"`
	Kind     string    `json:"kind,omitempty"`  // alternative target: entropy, l1, ...
	Costs    []float64 `json:"costs,omitempty"` // of the classes, for the kinds that have them
	NPa      float64   `json:"np_a,omitempty"`
	NPk      float64   `json:"np_k,omitempty"`
	TransA   float64   `json:"trans_a,omitempty"`
	TransB   float64   `json:"trans_b,omitempty"`
	OOB      bool      `json:"oob,omitempty"`
	OOBPreds bool      `json:"oobpreds,omitempty"`
	Progress bool      `json:"progress,omitempty"`
	Imp      bool      `json:"imp,omitempty"`
	SelfTest bool      `json:"selftest,omitempty"`
	Contrast int       `json:"ncontrasts,omitempty"`
	ConAll   bool      `json:"contrastall,omitempty"`
	ACE      int       `json:"ace,omitempty"`
	Cutoff   float64   `json:"cutoff,omitempty"`
	Black    []string  `json:"blacklist,omitempty"`
	BlockRE  string    `json:"blockre,omitempty"`
	InclRE   string    `json:"includere,omitempty"`
	ShufRE   string    `json:"shufflere,omitempty"`
	Permute  bool      `json:"permute,omitempty"`
	Jungle   bool      `json:"jungle,omitempty"`
	Scikit   bool      `json:"scikit,omitempty"`
	GBT      float64   `json:"gbt,omitempty"`
	Ada      bool      `json:"adaboost,omitempty"`
	Multi    bool      `json:"multiboost,omitempty"`
	Seeded   bool      `json:"seeded,omitempty"` // seed from the clock (no -noseed)
	Cols     bool      `json:"cols,omitempty"`
	Zip      bool      `json:"zip,omitempty"`
	NoRF     bool      `json:"norf,omitempty"`
	Prof     bool      `json:"prof,omitempty"`
}

// positive is the class that stands out for targets that have one.
func (c *GF) positive() string {
	if c.T.Odd {
		return "True"
	}
	return "c0"
}

// costs are the costs or weights of the classes; classes left out have none.
func (c *GF) costs() map[string]float64 {
	if len(c.Costs) == 0 {
		return map[string]float64{c.positive(): 3, "c1": 0.5}
	}
	m := map[string]float64{}
	for i, v := range c.Costs {
		m["c"+strconv.Itoa(i)] = v
	}
	m[c.positive()] = c.Costs[0]
	return m
}

// or is v, or the default d of an option not given.
func or(v, d float64) float64 {
	if v == 0 {
		return d
	}
	return v
}

// args is the command line; files it needs are put into fs.
func (c *GF) args(fs *sim.FS, tab *Table) []string {
	data := tab.AFM(c.Cols, nil, true, false)
	if c.Zip {
		data = zipped("data.afm", data)
	}
	fs.Put("data.afm", data)
	a := []string{"-train", "data.afm", "-target", c.T.target()}
	defaults := c.T.Seed%2 == 0 // leave out flags that ask for what is done anyway
	if c.Trees != 100 || !defaults {
		a = append(a, "-nTrees", strconv.Itoa(c.Trees))
	}
	if c.Cores != 1 || !defaults {
		a = append(a, "-nCores", strconv.Itoa(c.Cores))
	}
	if !c.NoRF {
		a = append(a, "-rfpred", "out.sf")
	}
	str := func(f, v string) {
		if v != "" {
			a = append(a, f, v)
		}
	}
	boo := func(f string, v bool) {
		if v {
			a = append(a, f)
		}
	}
	str("-nSamples", c.NSamples)
	str("-mTry", c.MTry)
	str("-leafSize", c.LeafSize)
	if c.MaxDepth > 0 {
		a = append(a, "-maxDepth", strconv.Itoa(c.MaxDepth))
	}
	boo("-splitmissing", c.SplitM)
	boo("-force", c.Force)
	boo("-vet", c.Vet)
	boo("-evaloob", c.EvalOOB)
	boo("-extra", c.Extra)
	boo("-impute", c.Impute)
	boo("-nobag", c.NoBag)
	boo("-balance", c.Balance)
	if c.BalBy {
		a = append(a, "-balanceby", "C:stratum")
	}
	boo("-oob", c.OOB)
	if c.OOBPreds {
		a = append(a, "-oobpreds", "oob.tsv")
	}
	boo("-progress", c.Progress)
	if c.Imp {
		a = append(a, "-importance", "imp.tsv")
	}
	boo("-selftest", c.SelfTest)
	if c.Test != 0 {
		fs.Put("test.afm", testTable(tab, c.Test).AFM(c.Test%2 == 0, nil, true, false))
		a = append(a, "-test", "test.afm")
	}
	if c.Contrast > 0 {
		a = append(a, "-nContrasts", strconv.Itoa(c.Contrast))
	}
	boo("-contrastall", c.ConAll)
	if c.ACE > 0 {
		a = append(a, "-ace", strconv.Itoa(c.ACE))
	}
	if c.Cutoff > 0 {
		a = append(a, "-cutoff", strconv.FormatFloat(c.Cutoff, 'g', -1, 64))
	}
	if len(c.Black) > 0 {
		fs.Put("black.txt", blackList(c.Black, c.T.Seed))
		a = append(a, "-blacklist", "black.txt")
	}
	str("-blockRE", c.BlockRE)
	str("-includeRE", c.InclRE)
	str("-shuffleRE", c.ShufRE)
	boo("-permute", c.Permute)
	boo("-jungle", c.Jungle)
	if c.Scikit {
		a = append(a, "-scikitforest", "sk.json")
	}
	if c.GBT > 0 {
		a = append(a, "-gbt", strconv.FormatFloat(c.GBT, 'g', -1, 64))
	}
	boo("-adaboost", c.Ada)
	boo("-multiboost", c.Multi)
	if c.Prof {
		a = append(a, "-cpuprofile", "cpu.prof")
	}
	num := func(f string, v float64) {
		if v != 0 {
			a = append(a, f, strconv.FormatFloat(v, 'g', -1, 64))
		}
	}
	pos := c.positive()
	switch c.Kind {
	case "":
	case "entropy", "l1", "ordinal", "density":
		a = append(a, "-"+c.Kind)
	case "NP":
		a = append(a, "-NP", "-NP_pos", pos)
		num("-NP_a", c.NPa)
		num("-NP_k", c.NPk)
	case "hellinger":
		a = append(a, "-hellinger", "-positive", pos)
	case "rfweights", "cost", "dentropy", "adacost":
		b, err := json.Marshal(c.costs())
		if err != nil {
			panic(err)
		}
		a = append(a, "-"+c.Kind, string(b))
	case "trans":
		a = append(a, "-trans_unlabeled", pos)
		if c.TransA < 0 {
			a = append(a, "-trans_alpha", "0")
		} else {
			num("-trans_alpha", c.TransA)
		}
		num("-trans_beta", c.TransB)
	}
	if c.GBT > 0 && c.T.Target == "cat" {
		a = append(a, "-positive", pos)
	}
	boo("-noseed", !c.Seeded)
	return a
}

// genGF draws a configuration of plain forests; special features are added by the properties that want them.
func genGF(r *sim.RNG) GF {
	target := "num"
	if r.Intn(2) == 0 {
		target = "cat"
	}
	c := GF{T: genTSpec(r, target), Cores: 1 + r.Intn(6), Trees: 1 + r.Intn(12)}
	switch r.Intn(6) {
	case 0:
		c.Cores = 1
	case 1:
		c.Trees = 1 + r.Intn(3) // fewer trees than cores
	case 2:
		c.Cores = 2
	}
	if r.Intn(150) == 0 {
		c.Trees = []int{100, 50 + r.Intn(250)}[r.Intn(2)]
	}
	c.common(r)
	return c
}

func (c *GF) common(r *sim.RNG) {
	nf := c.T.Nums + c.T.Cats
	switch r.Intn(5) {
	case 0:
		c.NSamples = strconv.Itoa(3 + r.Intn(c.T.Cases*2))
	case 1:
		c.NSamples = []string{"0.5", ".33", "0.9", "1.5"}[r.Intn(4)]
	}
	switch r.Intn(4) {
	case 0:
		c.MTry = strconv.Itoa(1 + r.Intn(nf+2))
	case 1:
		c.MTry = []string{"0.5", "1.0", ".3"}[r.Intn(3)]
	}
	switch r.Intn(4) {
	case 0:
		c.LeafSize = strconv.Itoa(1 + r.Intn(6))
	case 1:
		c.LeafSize = []string{"0.1", "0.05", ".3"}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		c.MaxDepth = 1 + r.Intn(4)
	}
	c.SplitM = r.Intn(3) == 0
	c.Force = r.Intn(5) == 0
	c.Extra = r.Intn(6) == 0
	c.Vet = r.Intn(6) == 0
	c.EvalOOB = r.Intn(8) == 0
	c.Impute = r.Intn(6) == 0
	c.T.Far = c.T.Far && !c.Impute
	c.Cols = r.Intn(4) == 0
	c.Zip = r.Intn(8) == 0
	c.Seeded = r.Intn(4) == 0
	if r.Intn(8) == 0 {
		c.NoBag = true
		if n, err := strconv.Atoi(c.NSamples); err == nil && n > c.T.Cases/3 {
			c.NSamples = strconv.Itoa(1 + c.T.Cases/3)
		} else if c.NSamples == "1.5" {
			c.NSamples = "0.5"
		}
	}
	if c.T.Target == "cat" && !c.NoBag {
		if r.Intn(6) == 0 {
			c.Balance = true
		}
	}
	if r.Intn(5) == 0 {
		c.Contrast = 1 + r.Intn(3)
	}
	if r.Intn(10) == 0 {
		c.ConAll = true
	}
	if r.Intn(5) == 0 && c.T.Nums > 0 {
		c.Black = []string{"N:num0"}
		if r.Intn(2) == 0 {
			c.Black = append(c.Black, "N:nothere", "C:cat0", "B:cat0")
			if r.Intn(3) == 0 {
				c.Black = append(c.Black, c.T.target())
			}
		}
	}
	switch r.Intn(10) {
	case 0:
		c.BlockRE = "num1|cat0"
	case 1:
		c.InclRE = "num"
	}
	if r.Intn(10) == 0 {
		c.ShufRE = "num"
	}
	c.Permute = r.Intn(12) == 0
}

// kind adds an alternative target.
func (c *GF) kind(r *sim.RNG) {
	if c.T.Target == "num" {
		c.Kind = []string{"l1", "ordinal", "density"}[r.Intn(3)]
		c.T.IntTgt = c.Kind == "ordinal"
	} else {
		c.Kind = []string{"entropy", "NP", "hellinger", "rfweights", "cost", "dentropy", "trans", "density"}[r.Intn(8)]
	}
	switch c.Kind {
	case "NP":
		if r.Intn(2) == 0 {
			c.NPa = []float64{0.01, 0.25, 0.5, 0.9, 1}[r.Intn(5)]
		}
		if r.Intn(2) == 0 {
			c.NPk = []float64{0.5, 1, 10, 1e4}[r.Intn(4)]
		}
	case "trans":
		if r.Intn(2) == 0 {
			c.TransA = []float64{0.1, 1, 100, -1}[r.Intn(4)] // -1: none
		}
		if r.Intn(2) == 0 {
			c.TransB = []float64{0.25, 1, 2}[r.Intn(3)]
		}
	case "rfweights", "cost", "dentropy":
		if r.Intn(2) == 0 {
			for k := c.T.TCats; k > 0; k-- {
				c.Costs = append(c.Costs, float64(1+r.Intn(16))/4)
			}
		}
	}
	c.valid()
}

// valid leaves out combinations that have no meaning.
func (c *GF) valid() {
	if c.Kind == "density" {
		c.Vet = false // a density target has no values to permute
	}
	if c.Kind == "density" || c.Kind == "trans" { // looks at all features for every split of every feature
		c.T.Far = false // densities may overflow
		c.T.Nums, c.T.Cats = min(c.T.Nums, 12), min(c.T.Cats, 12)
		if c.T.Cases > 100 {
			c.T.Cases = 100
		}
	}
	if c.Kind != "" {
		c.T.Cases = min(c.T.Cases, 300)
		if n, err := strconv.Atoi(c.NSamples); err == nil && n > 400 { // many are quadratic
			c.NSamples = "400"
		}
		if c.T.Deep {
			c.T.Cases = min(c.T.Cases, 100)
		}
	}
	if c.Kind != "" && c.T.MaxCat > 33 { // the searches of these over many categories are slow
		c.T.MaxCat, c.T.Cases = 36, min(c.T.Cases, 100)
	}
	if n, err := strconv.Atoi(c.NSamples); c.NoBag && err == nil && n > c.T.Cases*2/3 {
		c.NSamples = "" // there may be fewer
	}
}

// unique avoids contrasts that share a name (contrasts are named after their feature, drawn with replacement), for
// properties that follow saved rules, which name features.
func (c *GF) unique() {
	if c.Contrast > 1 {
		c.Contrast = 1
	}
	if c.ACE > 0 {
		c.Contrast, c.ConAll = 0, false
	}
	if c.ConAll {
		c.Contrast = 0
	}
}

func (c GF) shrinks() []GF {
	var out []GF
	try := func(f func(*GF)) {
		d := c
		f(&d)
		out = append(out, d)
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *GF) { d.T = t })
	}
	if c.Trees > 1 {
		try(func(d *GF) { d.Trees = (d.Trees + 1) / 2 })
		try(func(d *GF) { d.Trees-- })
	}
	if c.Cores > 1 {
		try(func(d *GF) { d.Cores = (d.Cores + 1) / 2 })
		try(func(d *GF) { d.Cores-- })
	}
	for _, p := range []func(*GF){
		func(d *GF) { d.NSamples = "" }, func(d *GF) { d.MTry = "" }, func(d *GF) { d.LeafSize = "" }, func(d *GF) { d.MaxDepth = 0 },
		func(d *GF) { d.SplitM = false }, func(d *GF) { d.Force = false }, func(d *GF) { d.Vet = false }, func(d *GF) { d.EvalOOB = false },
		func(d *GF) { d.Extra = false }, func(d *GF) { d.Impute = false }, func(d *GF) { d.NoBag = false }, func(d *GF) { d.Balance = false },
		func(d *GF) { d.OOB = false }, func(d *GF) { d.OOBPreds = false }, func(d *GF) { d.Progress = false }, func(d *GF) { d.Imp = false },
		func(d *GF) { d.SelfTest = false }, func(d *GF) { d.Contrast = 0 }, func(d *GF) { d.ConAll = false }, func(d *GF) { d.Black = nil },
		func(d *GF) { d.BlockRE = "" }, func(d *GF) { d.InclRE = "" }, func(d *GF) { d.ShufRE = "" }, func(d *GF) { d.Permute = false },
		func(d *GF) { d.Scikit = false }, func(d *GF) { d.Seeded = false }, func(d *GF) { d.Cols = false }, func(d *GF) { d.Zip = false },
		func(d *GF) { d.Kind = "" }, func(d *GF) { d.Costs, d.NPa, d.NPk, d.TransA, d.TransB = nil, 0, 0, 0, 0 }, func(d *GF) { d.Prof = false }, func(d *GF) { d.Test = 0 }, func(d *GF) { d.ACE, d.Cutoff = 0, 0 },
		func(d *GF) { d.MaxDepth = 1 },
	} {
		try(p)
	}
	return out
}

// Grow is one observed call of Tree.Grow or Tree.GrowJungle.
type Grow struct {
	G           int
	Tree        *CF.Tree
	Bag, Cand   []int
	OOB         []int
	MTry, Leaf  int
	Depth       int
	SplitM      bool
	Force       bool
	Vet         bool
	Eval        bool
	Extra       bool
	Imp, DU     bool
	Jungle      bool
	Enter, Exit int
	Snap        *TTree
	Tab         *Table
	Weights     []float64 // of the cases, in adaptive boosting
	Resid       []float64 // in gradient boosting
	Boosts      int
}

// GFRun is what was observed of a growforest run.
type GFRun struct {
	C      *GF
	Res    *sim.Result
	FS     *sim.FS
	Base   *Table // as in the file
	grows  [4096]*Grow
	NGrow  int
	writes [4096]*Grow
	NWrite int
	seq    int
	SF     *SF
	tabs   bool
	last   *Table
	OnGrow func(g *Grow, args []any) func() // further observation of Grow, run at entry
}

// Grows lists the calls, all of which the ended run must have seen through.
func (q *GFRun) Grows() []*Grow {
	for i, g := range q.grows[:q.NGrow] {
		if g.Snap == nil {
			panic(violation{"unfinished", fmt.Sprintf("the run ended while tree %d of %d was still being grown", i+1, q.NGrow)})
		}
	}
	return q.grows[:q.NGrow]
}
func (q *GFRun) Writes() []*Grow { return q.writes[:q.NWrite] }

func copyInts(a []int) []int {
	b := make([]int, len(a))
	copy(b, a)
	return b
}

// hook records what the program's workers do.
func (q *GFRun) hook(name string, a []any) func() {
	switch name {
	case "Tree.Grow", "Tree.GrowJungle":
		g := &Grow{G: sim.CurG(), Tree: a[0].(*CF.Tree), Jungle: name == "Tree.GrowJungle"}
		fm := a[1].(*CF.FeatureMatrix)
		g.Bag, g.Cand, g.OOB = copyInts(a[3].([]int)), copyInts(a[4].([]int)), copyInts(a[5].([]int))
		g.MTry, g.Leaf, g.Depth = a[6].(int), a[7].(int), a[8].(int)
		g.SplitM, g.Force, g.Vet, g.Eval, g.Extra = a[9].(bool), a[10].(bool), a[11].(bool), a[12].(bool), a[13].(bool)
		g.Imp = a[14].(*[]*CF.RunningMean) != nil
		g.DU = a[15].(*[]int) != nil
		q.seq++
		g.Enter = q.seq
		if q.NGrow < len(q.grows) {
			q.grows[q.NGrow] = g
			q.NGrow++
		}
		var more func()
		if q.OnGrow != nil {
			more = q.OnGrow(g, a)
		}
		if q.tabs {
			g.Tab = q.table(fm)
			g.Weights = caseWeights(a[2])
			if q.C.GBT > 0 {
				g.Resid, _ = residuals(a[2].(residual))
			}
		}
		return func() {
			q.seq++
			g.Exit = q.seq
			g.Snap = snapshot(g.Tree)
			if more != nil {
				more()
			}
		}
	case "ForestWriter.WriteTree":
		t := a[1].(*CF.Tree)
		for i := q.NGrow - 1; i >= 0; i-- {
			if q.grows[i].Tree == t {
				if q.NWrite < len(q.writes) {
					q.writes[q.NWrite] = q.grows[i]
					q.NWrite++
				}
				break
			}
		}
	}
	return nil
}

// table copies the training data as it is now, sharing equal copies.
func (q *GFRun) table(fm *CF.FeatureMatrix) *Table {
	t := fromFM(fm)
	if q.last != nil && len(q.last.Feats) == len(t.Feats) && sameTable(q.last, t) == "" {
		return q.last
	}
	q.last = t
	return t
}

// runGF runs growforest once.
func runGF(x *Ctx, c *GF, tabs bool, mod func(*sim.Options), prep func(q *GFRun)) *GFRun {
	if c.Impute {
		c.T.Far = false // means may overflow
	}
	q := &GFRun{C: c, FS: sim.NewFS(), Base: c.T.Build(), tabs: tabs}
	a := c.args(q.FS, q.Base)
	if prep != nil {
		prep(q)
	}
	sim.ProbeHook = q.hook
	q.Res = x.Tool("growforest", a, q.FS, mod)
	sim.ProbeHook = nil
	return q
}

// load parses the saved forest and ties its trees to the calls that grew them.
func (q *GFRun) load(x *Ctx) {
	b, ok := q.FS.Get("out.sf")
	x.Check(ok, "no-forest", "the run ended with status 0 but there is no forest file")
	sf, err := parseSF(b)
	if err != nil {
		x.Fail("malformed", "the saved forest is malformed: %v\n%s", err, tail(string(b), 1500))
	}
	q.SF = sf
}

// nonMissing counts the known targets.
func (q *GFRun) nonMissing() int {
	f := q.Base.get(q.C.T.target())
	n := 0
	for _, m := range f.Miss {
		if !m {
			n++
		}
	}
	if q.C.Impute {
		return len(f.Miss)
	}
	return n
}

// intOrFrac is the documented meaning of counts that may be portions.
func intOrFrac(s string, total int) int {
	if strings.Contains(s, ".") {
		f, _ := strconv.ParseFloat(s, 64)
		return int(math.Ceil(f * float64(total)))
	}
	n, _ := strconv.Atoi(s)
	return n
}

// bagSize is the size each bag must have.
func (q *GFRun) bagSize() int {
	n := intOrFrac(q.C.NSamples, q.nonMissing())
	if n <= 0 {
		n = q.nonMissing()
	}
	return n
}

// minLeaf is the smallest number of bag cases a side of a split may have.
func (q *GFRun) minLeaf() int {
	n := intOrFrac(q.C.LeafSize, q.nonMissing())
	if n <= 0 {
		switch {
		case q.C.GBT > 0 || q.C.Ada:
			n = q.nonMissing() / 3
		case q.C.T.Target == "num":
			n = 4
		default:
			n = 1
		}
	}
	return n
}

// allowed says which features trees may split on.
func (q *GFRun) allowed(name string) bool {
	c := q.C
	base := strings.TrimSuffix(name, ":SHUFFLED")
	if name == c.T.target() {
		return false
	}
	if c.ACE > 0 && base == c.T.target() {
		return false
	}
	for _, b := range c.Black {
		if b == name || c.ACE > 0 && b == base {
			return false
		}
	}
	if c.BlockRE != "" && regexp.MustCompile(c.BlockRE).MatchString(name) {
		return false
	}
	if c.InclRE != "" && !regexp.MustCompile(c.InclRE).MatchString(name) {
		return false
	}
	return true
}

// desc describes a grown tree in messages.
func (g *Grow) desc() string {
	return fmt.Sprintf("tree grown by goroutine %d: %s", g.G, tail(g.Snap.String(), 600))
}
