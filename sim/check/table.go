package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// Feat is a column of a data table: the harness' own, simple representation.
type Feat struct {
	Name string
	Num  bool
	Val  []float64
	Str  []string
	Miss []bool
}

// Table is a data table as the harness understands it.
type Table struct {
	Feats  []*Feat
	Cases  []string
	byName map[string]*Feat
}

func (t *Table) get(name string) *Feat {
	if t.byName == nil {
		t.byName = map[string]*Feat{}
		for _, f := range t.Feats {
			t.byName[f.Name] = f
		}
	}
	return t.byName[name]
}

// TSpec describes a table; the table follows from it.
type TSpec struct {
	Seed   uint64 `json:"seed"`
	Cases  int    `json:"cases"`
	Nums   int    `json:"nums"`
	Cats   int    `json:"cats"`
	MaxCat int    `json:"max_cat"` // categories per categorical feature
	Miss   int    `json:"miss"`    // percent missing in features
	Target string `json:"target"`  // "num" or "cat"
	TCats  int    `json:"tcats"`
	TMiss  int    `json:"tmiss"` // percent missing in the target
	Signal int    `json:"signal"`
	Odd    bool   `json:"odd"`                  // awkward values and names
	TPos   int    `json:"tpos"`                 // position of the target among the features
	Const  bool   `json:"const"`                // include a constant feature
	Ties   int    `json:"ties"`                 // distinct numerical values (0: many)
	Strata bool   `json:"strata"`               // add a two or three class stratum feature "C:stratum"
	IntTgt bool   `json:"int_target,omitempty"` // numerical target of small whole numbers
	Far    bool   `json:"far,omitempty"`        // numerical features at the ends of what float64 holds
	Deep   bool   `json:"deep,omitempty"`       // the target makes trees as deep as there are cases
	Order  int    `json:"order,omitempty"`      // the first numerical feature has its values in an order that is hard to sort
}

const targetN = "N:target"
const targetC = "C:target"

func (s TSpec) target() string {
	if s.Target == "num" {
		return targetN
	}
	return targetC
}

func genTSpec(r *sim.RNG, target string) TSpec {
	s := TSpec{Seed: r.Next() % 1000000, Cases: 8 + r.Intn(40), Nums: r.Intn(5), Cats: r.Intn(4), MaxCat: 2 + r.Intn(4), Target: target, TCats: 2 + r.Intn(3), Signal: r.Intn(3)}
	if s.Nums+s.Cats == 0 {
		s.Nums = 1
	}
	if r.Intn(6) == 0 {
		s.MaxCat = 6 + r.Intn(5)
	}
	if r.Intn(20) == 0 {
		s.MaxCat = 33
		s.Cases = 50 + r.Intn(30)
	}
	if r.Intn(2) == 0 {
		s.Miss = 5 + r.Intn(30)
	}
	if r.Intn(4) == 0 {
		s.TMiss = 5 + r.Intn(20)
	}
	s.TPos = r.Intn(s.Nums + s.Cats + 1)
	s.Const = r.Intn(4) == 0
	if r.Intn(3) == 0 {
		s.Ties = 2 + r.Intn(4)
	}
	s.Odd = r.Intn(4) == 0
	s.Far = r.Intn(10) == 0
	// sizes past the usual limits of buffers, bytes and batches
	switch r.Intn(300) {
	case 0:
		s.Cases = 200 + r.Intn(1000)
	case 1:
		s.Cases = 8 + r.Intn(12)
		s.Nums, s.Cats = 30+r.Intn(300), r.Intn(100)
		s.TPos = r.Intn(s.Nums + s.Cats + 1)
	case 2:
		s.Cases = 100 + r.Intn(300)
		s.Nums, s.Cats, s.Deep, s.Far, s.Miss = 1, r.Intn(2), true, false, 0
		s.TPos = r.Intn(2)
	case 3:
		s.MaxCat, s.Cats = 34+r.Intn(50), 1
		s.Cases = 80 + r.Intn(100)
	case 4:
		s.TCats = 12 + r.Intn(40)
		s.Cases = 2*s.TCats + r.Intn(40)
	}
	return s
}

// far moves the values of a feature to where float64 is coarse, ends or is infinite.
func far(f *Feat, kind int) {
	for i, v := range f.Val {
		k := math.Floor(v * 20)
		switch kind {
		case 0: // neighbouring numbers
			f.Val[i] = 1e16 + 2*k
		case 1: // neighbouring numbers just further apart than the cutoff for equal ones
			f.Val[i] = 1e9 + k*math.Ldexp(1, -23)
		case 2: // sums of values overflow
			f.Val[i] = math.Max(-1, math.Min(1, v)) * 1.7e308
		case 3:
			f.Val[i] = 1.5e308 + math.Max(-1, math.Min(1, v))*1e307
		case 4:
			f.Val[i] = -1.5e308 + math.Max(-1, math.Min(1, v))*1e307
		case 5: // differences below the cutoff
			f.Val[i] = v * 1e-7
		case 6: // differences around the cutoff
			f.Val[i] = k * 4e-8
		case 7:
			f.Val[i] = -1e16 + 2*k
		}
	}
}

// Build makes the table.
func (s TSpec) Build() *Table {
	r := &sim.RNG{S: sim.Mix(s.Seed, 99)}
	t := &Table{}
	for i := 0; i < s.Cases; i++ {
		t.Cases = append(t.Cases, fmt.Sprintf("case%d", i))
	}
	lat := make([]float64, s.Cases)
	for i := range lat {
		lat[i] = r.Float()
	}
	num := func(name string, corr float64, miss int) *Feat {
		f := &Feat{Name: name, Num: true}
		scale := 1.0
		if s.Odd {
			scale = []float64{1, 1000, 0.01, 12345.678}[r.Intn(4)]
		}
		for i := 0; i < s.Cases; i++ {
			v := corr*lat[i] + (1-corr)*r.Float() - 0.3
			if s.Ties > 0 {
				v = math.Floor(v*float64(s.Ties)) / 2
			} else {
				v = math.Floor(v*1e4) / 1e4
			}
			f.Val = append(f.Val, v*scale)
			f.Miss = append(f.Miss, r.Intn(100) < miss)
		}
		return f
	}
	cat := func(name string, n int, corr float64, miss int) *Feat {
		f := &Feat{Name: name}
		labels := make([]string, n)
		for i := range labels {
			labels[i] = fmt.Sprintf("c%d", i)
			if s.Odd {
				labels[i] = []string{"True", "False", "a b", "1", "0", "-1.5", "x_y", "na_like", "Z", "q/w"}[i%10] + strings.Repeat("+", i/10)
			}
		}
		for i := 0; i < s.Cases; i++ {
			v := int((corr*lat[i] + (1-corr)*r.Float()) * float64(n))
			if v >= n {
				v = n - 1
			}
			if s.Deep && name == targetC {
				v = i % n
			}
			f.Str = append(f.Str, labels[v])
			f.Miss = append(f.Miss, r.Intn(100) < miss)
		}
		return f
	}
	corrs := []float64{0, 0.5, 0.9}
	for i := 0; i < s.Nums; i++ {
		c := 0.0
		if r.Intn(2) == 0 {
			c = corrs[s.Signal%3]
		}
		m := 0
		if r.Intn(2) == 0 {
			m = s.Miss
		}
		t.Feats = append(t.Feats, num(fmt.Sprintf("N:num%d", i), c, m))
		if s.Far {
			far(t.Feats[i], r.Intn(10))
		}
		if s.Order > 0 && i == 0 {
			hardOrder(t.Feats[i].Val, s.Order)
		}
		if s.Deep {
			for j := range t.Feats[i].Val {
				t.Feats[i].Val[j] = float64(j)
			}
		}
	}
	for i := 0; i < s.Cats; i++ {
		c := 0.0
		if r.Intn(2) == 0 {
			c = corrs[s.Signal%3]
		}
		m := 0
		if r.Intn(2) == 0 {
			m = s.Miss
		}
		p := "C:"
		n := 2 + r.Intn(s.MaxCat-1)
		if s.MaxCat > 5 && i == 0 {
			n = s.MaxCat
		}
		if n == 2 && r.Intn(2) == 0 {
			p = "B:"
		}
		t.Feats = append(t.Feats, cat(fmt.Sprintf("%scat%d", p, i), n, c, m))
	}
	if s.Const {
		f := num("N:const", 0, 0)
		for i := range f.Val {
			f.Val[i] = 3.5
		}
		t.Feats = append(t.Feats, f)
	}
	if s.Strata {
		t.Feats = append(t.Feats, cat("C:stratum", 2+r.Intn(2), 0, 0))
	}
	var tf *Feat
	if s.Target == "num" {
		tf = num(targetN, corrs[s.Signal%3], s.TMiss)
		tf.Val[0], tf.Miss[0] = -1, false // a target always varies
		tf.Val[1], tf.Miss[1] = 2, false
		if s.Deep {
			for i := range tf.Val {
				tf.Val[i] = math.Pow(1.3, float64(i))
			}
		}
		if s.IntTgt {
			for i, v := range tf.Val {
				tf.Val[i] = math.Abs(math.Floor(v*5)) - 10*math.Floor(math.Abs(math.Floor(v*5))/10)
			}
		}
	} else {
		tf = cat(targetC, s.TCats, corrs[s.Signal%3], s.TMiss)
		// every class has known cases
		for i := 0; i < s.TCats && 2*i+1 < s.Cases; i++ {
			l := fmt.Sprintf("c%d", i)
			if s.Odd {
				l = []string{"True", "False", "a b", "1", "0", "-1.5", "x_y", "na_like", "Z", "q/w"}[i%10] + strings.Repeat("+", i/10)
			}
			tf.Str[2*i], tf.Miss[2*i] = l, false
			tf.Str[2*i+1], tf.Miss[2*i+1] = l, false
		}
	}
	p := s.TPos
	if p > len(t.Feats) {
		p = len(t.Feats)
	}
	t.Feats = append(t.Feats[:p:p], append([]*Feat{tf}, t.Feats[p:]...)...)
	return t
}

func (s TSpec) shrinks() []TSpec {
	var out []TSpec
	try := func(f func(*TSpec)) {
		c := s
		f(&c)
		if c != s {
			out = append(out, c)
		}
	}
	try(func(c *TSpec) { c.Cases = (c.Cases + 8) / 2 })
	try(func(c *TSpec) { c.Nums, c.Cats = 1, 0 })
	try(func(c *TSpec) {
		if c.Nums > 1 {
			c.Nums--
		}
	})
	try(func(c *TSpec) {
		if c.Cats > 0 && c.Nums > 0 {
			c.Cats--
		}
	})
	try(func(c *TSpec) { c.Miss = 0 })
	try(func(c *TSpec) { c.TMiss = 0 })
	try(func(c *TSpec) { c.Odd = false })
	try(func(c *TSpec) { c.Far = false })
	try(func(c *TSpec) { c.Deep = false })
	try(func(c *TSpec) { c.Order = 0 })
	try(func(c *TSpec) { c.Const = false })
	try(func(c *TSpec) { c.Ties = 0 })
	try(func(c *TSpec) { c.TPos = 0 })
	return out
}

// GetStr is the text of a value.
func (f *Feat) GetStr(i int) string {
	if f.Miss[i] {
		return "NA"
	}
	if f.Num {
		return strconv.FormatFloat(f.Val[i], 'g', -1, 64)
	}
	return f.Str[i]
}

func (f *Feat) field(i int, r *sim.RNG) string {
	if !f.Miss[i] {
		s := f.GetStr(i)
		if r == nil || !f.Num || math.IsInf(f.Val[i], 0) {
			return s
		}
		plain := !strings.ContainsAny(s, "eE")
		switch k := r.Intn(8); {
		case k == 0:
			return strconv.FormatFloat(f.Val[i], 'e', -1, 64)
		case k == 1:
			return strconv.FormatFloat(f.Val[i], 'E', -1, 64)
		case k == 2 && !strings.HasPrefix(s, "-"):
			return "+" + s
		case k == 3 && plain && strings.Contains(s, "."):
			return s + "00"
		case k == 4 && plain && !strings.Contains(s, "."):
			return s + ".0"
		case k == 5 && plain && strings.HasPrefix(s, "0."):
			return s[1:]
		}
		return s
	}
	if r == nil {
		return "NA"
	}
	return []string{"NA", "?", "nan", "na", "null", "NaN", "NULL", ""}[r.Intn(8)]
}

// quoted puts a field into quotes where it needs them.
func quoted(s, sep string) string {
	if strings.ContainsAny(s, "\"\n"+sep) || strings.HasPrefix(s, "%") {
		return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
	}
	return s
}

// arffName is a name as it stands in the header of an arff file.
func arffName(s string) string {
	if strings.ContainsAny(s, " \t\n'\"\\{},%") {
		return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\t", "\\t").Replace(s) + "'"
	}
	return s
}

// AFM writes the table as an annotated feature matrix, with features as rows or columns. r, if not nil, varies
// the spelling of missing values; final says whether the last line is terminated.
func (t *Table) AFM(cols bool, r *sim.RNG, final bool, crlf bool) []byte {
	var b bytes.Buffer
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	if cols {
		b.WriteString(".")
		for _, f := range t.Feats {
			b.WriteString("\t" + quoted(f.Name, "\t"))
		}
		for i := range t.Cases {
			b.WriteString(nl + quoted(t.Cases[i], "\t"))
			for _, f := range t.Feats {
				b.WriteString("\t" + quoted(f.field(i, r), "\t"))
			}
		}
	} else {
		b.WriteString("featureid")
		for _, c := range t.Cases {
			b.WriteString("\t" + quoted(c, "\t"))
		}
		for _, f := range t.Feats {
			b.WriteString(nl + quoted(f.Name, "\t"))
			for i := range t.Cases {
				b.WriteString("\t" + quoted(f.field(i, r), "\t"))
			}
		}
	}
	if final {
		b.WriteString(nl)
	}
	return b.Bytes()
}

// ARFF writes the table in weka's format. r, if not nil, varies the spelling.
func (t *Table) ARFF(final bool, r *sim.RNG, crlf bool) []byte {
	var b bytes.Buffer
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	pick := func(of ...string) string {
		if r == nil {
			return of[0]
		}
		return of[r.Intn(len(of))]
	}
	b.WriteString(pick("@RELATION", "@relation") + " sim" + nl + nl + "% a comment" + nl)
	for _, f := range t.Feats {
		name := arffName(f.Name)
		if name == f.Name {
			q := pick("", "'", "\"")
			name = q + name + q
		}
		b.WriteString(pick("@ATTRIBUTE", "@attribute", "@Attribute") + pick(" ", "\t", "  ") + name + pick(" ", "\t "))
		if f.Num {
			b.WriteString(pick("NUMERIC", "numeric", "real", "Real") + nl)
			continue
		}
		seen := map[string]bool{}
		var l []string
		for i, s := range f.Str {
			if !f.Miss[i] && !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
		fmt.Fprintf(&b, "{%s}%s", strings.ReplaceAll(strings.Join(l, ","), "\n", " "), nl)
		b.WriteString(pick("", nl, "% another comment"+nl, ""))
	}
	b.WriteString(nl + pick("@DATA", "@data", "@Data") + nl)
	for i := range t.Cases {
		b.WriteString(pick("", "", "", nl, "% a comment, between the cases"+nl))
		for j, f := range t.Feats {
			if j > 0 {
				b.WriteString(",")
			}
			if f.Miss[i] {
				b.WriteString("?")
			} else {
				b.WriteString(quoted(f.GetStr(i), ","))
			}
		}
		if i < len(t.Cases)-1 || final {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}

// LibSVM writes target and numerical features sparsely; values that are missing count as zero there. r, if not nil,
// varies the spelling.
func (t *Table) LibSVM(target string, final bool, r *sim.RNG, crlf bool) []byte {
	var b bytes.Buffer
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	pick := func(of ...string) string {
		if r == nil {
			return of[0]
		}
		return of[r.Intn(len(of))]
	}
	tf := t.get(target)
	kept := len(libsvmTable(t, target).Feats) - 1
	for i := range t.Cases {
		b.WriteString(pick("", "", "", "", nl, " "+nl))
		if tf.Num {
			s := tf.GetStr(i)
			if !strings.Contains(s, ".") {
				if e := strings.IndexByte(s, 'e'); e >= 0 {
					s = s[:e] + ".0" + s[e:]
				} else {
					s += ".0"
				}
			}
			b.WriteString(s)
		} else {
			b.WriteString(tf.GetStr(i))
		}
		k := 0
		for _, f := range t.Feats {
			if f == tf || !f.Num {
				continue
			}
			k++
			if !f.Miss[i] && f.Val[i] != 0 {
				fmt.Fprintf(&b, "%s%d:%s", pick(" ", " ", "\t", "  "), k, f.GetStr(i))
			} else if r != nil && k <= kept && r.Intn(4) == 0 {
				fmt.Fprintf(&b, " %d:0", k)
			}
		}
		b.WriteString(pick("", "", " "))
		if i < len(t.Cases)-1 || final {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}

func zipped(name string, data []byte) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	if name != "" {
		h := &zip.FileHeader{Name: name, Method: zip.Deflate}
		if len(data)%3 == 0 {
			h.Method = zip.Store
		}
		w, _ := z.CreateHeader(h)
		w.Write(data)
	}
	z.Close()
	return b.Bytes()
}

// fromFM reads a feature matrix into the harness' representation, bypassing the accessors under test.
func fromFM(fm *CF.FeatureMatrix) *Table {
	t := &Table{Cases: append([]string(nil), fm.CaseLabels...)}
	for _, f := range fm.Data {
		t.Feats = append(t.Feats, fromFeature(f))
	}
	return t
}

func fromFeature(f CF.Feature) *Feat {
	switch x := f.(type) {
	case *CF.DenseNumFeature:
		return &Feat{Name: x.Name, Num: true, Val: append([]float64(nil), x.NumData...), Miss: append([]bool(nil), x.Missing...)}
	case *CF.DenseCatFeature:
		g := &Feat{Name: x.Name, Miss: append([]bool(nil), x.Missing...)}
		for i, v := range x.CatData {
			s := ""
			if !x.Missing[i] && v >= 0 && v < len(x.Back) {
				s = x.Back[v]
			}
			g.Str = append(g.Str, s)
		}
		return g
	}
	panic(fmt.Sprintf("unknown feature type %T", f))
}

// sameFeat compares values and missing entries ("" when equal).
func sameFeat(want, got *Feat) string {
	if want.Num != got.Num {
		return fmt.Sprintf("feature %s: numerical %v, expected %v", want.Name, got.Num, want.Num)
	}
	if len(want.Miss) != len(got.Miss) {
		return fmt.Sprintf("feature %s: %d cases, expected %d", want.Name, len(got.Miss), len(want.Miss))
	}
	for i := range want.Miss {
		if want.Miss[i] != got.Miss[i] {
			return fmt.Sprintf("feature %s case %d: missing is %v, expected %v (value %s)", want.Name, i, got.Miss[i], want.Miss[i], want.GetStr(i))
		}
		if want.Miss[i] {
			continue
		}
		if want.Num && want.Val[i] != got.Val[i] || !want.Num && want.Str[i] != got.Str[i] {
			return fmt.Sprintf("feature %s case %d: value %s, expected %s", want.Name, i, got.GetStr(i), want.GetStr(i))
		}
	}
	return ""
}

// sameTable compares two tables ("" when equal).
func sameTable(want, got *Table) string {
	if len(want.Feats) != len(got.Feats) {
		return fmt.Sprintf("%d features, expected %d", len(got.Feats), len(want.Feats))
	}
	for i, f := range want.Feats {
		if f.Name != got.Feats[i].Name {
			return fmt.Sprintf("feature %d is %q, expected %q", i, got.Feats[i].Name, f.Name)
		}
		if d := sameFeat(f, got.Feats[i]); d != "" {
			return d
		}
	}
	if len(want.Cases) != len(got.Cases) {
		return fmt.Sprintf("%d case labels, expected %d", len(got.Cases), len(want.Cases))
	}
	for i := range want.Cases {
		if want.Cases[i] != got.Cases[i] {
			return fmt.Sprintf("case label %d is %q, expected %q", i, got.Cases[i], want.Cases[i])
		}
	}
	return ""
}

// checkFM also checks the redundant parts of a feature matrix.
func checkFM(want *Table, fm *CF.FeatureMatrix) string {
	if fm == nil {
		return "no feature matrix"
	}
	if d := sameTable(want, fromFM(fm)); d != "" {
		return d
	}
	for i, f := range want.Feats {
		if j, ok := fm.Map[f.Name]; !ok || j != i {
			return fmt.Sprintf("the name %q leads to column %d (found %v), expected %d", f.Name, j, ok, i)
		}
		miss := false
		for _, m := range f.Miss {
			miss = miss || m
		}
		if miss && !fm.Data[i].MissingVals() {
			return fmt.Sprintf("feature %s has missing values but says it has none", f.Name)
		}
	}
	if len(fm.Map) != len(want.Feats) {
		return fmt.Sprintf("%d names for %d features", len(fm.Map), len(want.Feats))
	}
	return ""
}

// subset keeps the given cases.
func (t *Table) subset(cases []int) *Table {
	o := &Table{}
	for _, f := range t.Feats {
		g := &Feat{Name: f.Name, Num: f.Num}
		for _, c := range cases {
			g.Miss = append(g.Miss, f.Miss[c])
			if f.Num {
				g.Val = append(g.Val, f.Val[c])
			} else {
				g.Str = append(g.Str, f.Str[c])
			}
		}
		o.Feats = append(o.Feats, g)
	}
	for _, c := range cases {
		o.Cases = append(o.Cases, t.Cases[c])
	}
	return o
}

// labels lists the distinct known values of a categorical feature.
func (f *Feat) labels() []string {
	m := map[string]bool{}
	for i, s := range f.Str {
		if !f.Miss[i] {
			m[s] = true
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func near(a, b, tol float64) bool {
	if math.IsNaN(a) && math.IsNaN(b) || a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// blackList is the text of a list of features: lines of a name, and sometimes remarks after a tab.
func blackList(names []string, seed uint64) []byte {
	r := &sim.RNG{S: sim.Mix(seed, 83)}
	nl := []string{"\n", "\n", "\r\n"}[r.Intn(3)]
	remark := r.Intn(4) == 0
	var b bytes.Buffer
	for i, n := range names {
		if r.Intn(8) == 0 {
			b.WriteString(nl)
		}
		if r.Intn(4) == 0 {
			n = "\"" + n + "\""
		}
		b.WriteString(n)
		if remark {
			fmt.Fprintf(&b, "\tremark %d", i)
		}
		if i < len(names)-1 || r.Intn(4) > 0 {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}
