package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"

	"cfsim/sim"

	CF "github.com/ryanbressler/CloudForest"
)

// RT is a round trip of forests through a stream.
type RT struct {
	T     TSpec   `json:"t"`
	Fs    []FSpec `json:"fs"`
	Names int     `json:"names,omitempty"` // which characters names and labels are made of
	How   string  `json:"how"`             // forest, trees, nodes: the library's writer; text: our own; rface: as rf-ace writes
	ByTr  bool    `json:"by_tree,omitempty"`
	EOF   bool    `json:"eof,omitempty"`
	Zero  bool    `json:"zero,omitempty"`
	FCut  bool    `json:"fcut,omitempty"`
	CRLF  bool    `json:"crlf,omitempty"`
	Test  uint64  `json:"test,omitempty"`
	SPred bool    `json:"spred,omitempty"` // splits have predictions too
	Long  int     `json:"long,omitempty"`  // bytes some names and categories are made longer by
}

func genRT(r *sim.RNG) RT {
	c := RT{T: genTSpec(r, []string{"num", "cat"}[r.Intn(2)]), Names: r.Intn(13), How: []string{"forest", "trees", "nodes", "text", "rface"}[r.Intn(5)],
		ByTr: r.Intn(3) == 0, EOF: r.Intn(2) == 0, Zero: r.Intn(4) == 0, FCut: r.Intn(3) == 0}
	for i := 1 + r.Intn(6)/3; i > 0; i-- {
		f := genFSpec(r)
		if r.Intn(3) == 0 {
			f.Inter = (r.Float()*2 - 1) * []float64{1, 1e-7, 1e9}[r.Intn(3)]
		}
		f.NumPred = r.Intn(6) == 0
		if r.Intn(8) == 0 {
			f.Trees = 0
		}
		c.Fs = append(c.Fs, f)
	}
	if r.Intn(2) == 0 {
		c.Test = 1 + r.Next()%100000
	}
	c.SPred = r.Intn(4) == 0
	if r.Intn(25) == 0 {
		c.Long = genLong(r)
		for i := range c.Fs {
			if c.Fs[i].Trees > 4 {
				c.Fs[i].Trees = 4
			}
			if c.Fs[i].Depth > 3 {
				c.Fs[i].Depth = 3
			}
		}
	}
	if c.How == "text" || c.How == "rface" {
		c.CRLF = r.Intn(4) == 0
	}
	return c
}

func (c RT) shrinks() []RT {
	var out []RT
	try := func(f func(*RT)) {
		d := c
		d.Fs = append([]FSpec(nil), c.Fs...)
		f(&d)
		out = append(out, d)
	}
	if len(c.Fs) > 1 {
		try(func(d *RT) { d.Fs = d.Fs[1:] })
		try(func(d *RT) { d.Fs = d.Fs[:len(d.Fs)-1] })
	}
	for i := range c.Fs {
		for _, f := range c.Fs[i].shrinks() {
			f := f
			try(func(d *RT) { d.Fs[i] = f })
		}
	}
	for _, t := range c.T.shrinks() {
		t := t
		try(func(d *RT) { d.T = t })
	}
	for _, f := range []func(*RT){func(d *RT) { d.Names = 0 }, func(d *RT) { d.ByTr = false }, func(d *RT) { d.EOF = false }, func(d *RT) { d.Zero = false },
		func(d *RT) { d.FCut = false }, func(d *RT) { d.CRLF = false }, func(d *RT) { d.Test = 0 }, func(d *RT) { d.SPred = false }, func(d *RT) { d.Long = 0 }} {
		try(f)
	}
	return out
}

// odd makes a name out of unusual characters. Names that stand outside quotes cannot hold both a comma and, after
// it, an equals sign; quotes, colons in labels, line ends and surrounding blanks are beyond the format.
func odd(mode int, s string, quoted bool) string {
	switch mode {
	case 1:
		return s + "=x"
	case 2:
		return "a=" + s + "=="
	case 3:
		return s + ",y"
	case 4:
		return "Smith, " + s
	case 5:
		return "x  " + s + " (z)"
	case 6:
		return s + "é%'\\{}[]|;<>&$#@!~`^*+?/"
	case 7:
		if quoted {
			return s + ",b=c, d=e"
		}
		return s + ",,2,z"
	case 8:
		return []string{"TREE", "NODE", "FOREST", "PRED", "SPLITTER", "LVALUES", "TARGET", "WEIGHT"}[len(s)%8] + s
	case 9:
		return strings.Repeat(s, 40)
	case 10:
		if quoted {
			return "  " + s + " "
		}
		return s
	}
	return s
}

// rename gives the features and labels of a table unusual names.
func (t *Table) rename(mode int, target string) (*Table, string) {
	o := &Table{Cases: t.Cases}
	nt := target
	for _, f := range t.Feats {
		g := *f
		g.Name = f.Name[:2] + odd(mode, f.Name[2:], false)
		if f.Name == target {
			nt = g.Name
		}
		g.Str = nil
		for _, s := range f.Str {
			g.Str = append(g.Str, odd(mode, s, f.Name != target))
		}
		o.Feats = append(o.Feats, &g)
	}
	return o, nt
}

// toCF builds the library's tree.
func (t *TTree) toCF() *CF.Tree {
	return &CF.Tree{Root: t.Root.toCF(), Target: t.Target, Weight: t.Weight}
}

func (n *TNode) toCF() *CF.Node {
	if n == nil {
		return nil
	}
	o := &CF.Node{Pred: n.Pred}
	if !n.Split {
		return o
	}
	o.Splitter = &CF.Splitter{Feature: n.Feat, Numerical: n.Num, Value: n.Val}
	if !n.Num {
		o.Splitter.Left = map[string]bool{}
		for k, v := range n.Left {
			if v {
				o.Splitter.Left[k] = true
			}
		}
	}
	o.Left, o.Right, o.Missing = n.L.toCF(), n.R.toCF(), n.M.toCF()
	return o
}

// rfaceText writes a forest the way rf-ace does: breadth first, everything quoted, with fields of its own.
func (s *SF) rfaceText(i int) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "FOREST=RF,TARGET=\"%s\",NTREES=%d,CATEGORIES=\"\",SHRINKAGE=0.1", s.Target, len(s.Trees))
	if s.HasInter {
		fmt.Fprintf(&b, ",INTERCEPT=%v", s.Intercept)
	}
	b.WriteString("\n")
	for k, t := range s.Trees {
		fmt.Fprintf(&b, "TREE=%d,TARGET=\"%s\"", k, t.Target)
		if t.Weight >= 0 {
			fmt.Fprintf(&b, ",WEIGHT=\"%v\"", t.Weight)
		}
		b.WriteString("\n")
		type at struct {
			n *TNode
			p string
		}
		q := []at{{t.Root, "*"}}
		for len(q) > 0 {
			a := q[0]
			q = q[1:]
			n := a.n
			fmt.Fprintf(&b, "NODE=%s", a.p)
			if !n.Split {
				fmt.Fprintf(&b, ",PRED=\"%s\"\n", n.Pred)
				continue
			}
			n.Pred = "0.125"
			b.WriteString(",PRED=0.125")
			if n.Num {
				fmt.Fprintf(&b, ",SPLITTER=\"%s\",SPLITTERTYPE=NUMERICAL,LVALUES=\"%v\",RVALUES=\"%v\"\n", n.Feat, n.Val, n.Val)
			} else {
				fmt.Fprintf(&b, ",SPLITTER=\"%s\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"%s\",RVALUES=\"\"\n", n.Feat, strings.Join(sortedKeys(n.Left), ":"))
			}
			q = append(q, at{n.L, a.p + "L"}, at{n.R, a.p + "R"})
			if n.M != nil {
				q = append(q, at{n.M, a.p + "M"})
			}
		}
	}
	return []byte(b.String())
}

// ballots records votes.
type ballots struct{ votes map[int][]string }

func (b *ballots) Vote(i int, pred string, w float64) {
	b.votes[i] = append(b.votes[i], pred+" weight "+strconv.FormatFloat(w, 'g', -1, 64))
}
func (b *ballots) Tally(i int) string              { return "" }
func (b *ballots) TallyError(f CF.Feature) float64 { return 0 }

func runP11(x *Ctx, c *RT) {
	tab, target := c.T.Build().rename(c.Names, c.T.target())
	if c.Long > 0 {
		tab = tab.long(c.T.Seed, c.Long, target)
	}
	var want []*SF
	for i, f := range c.Fs {
		s := f.Build(tab, target)
		s.Forests = 1
		if i == 0 && !s.HasInter && f.Trees > 0 {
			s.Forests = 0
		}
		if c.SPred {
			for _, t := range s.Trees {
				t.Root.each(0, func(n *TNode, depth int) {
					if n.Split {
						n.Pred = fmt.Sprintf("%d.5", depth)
					}
				})
			}
		}
		want = append(want, s)
	}
	var text []byte
	if c.How == "text" || c.How == "rface" {
		for i, s := range want {
			if c.How == "text" {
				text = append(text, s.Emit()...)
			} else {
				text = append(text, s.rfaceText(i)...)
			}
		}
		if c.CRLF {
			text = bytes.ReplaceAll(text, []byte("\n"), []byte("\r\n"))
		}
	} else {
		st := sim.NewStream(nil)
		var err error
		res := x.Lib(nil, nil, func() { err = c.write(st, want) })
		x.MustEnd(res, "writing")
		if err != nil {
			x.Fail("write", "writing fails: %v", err)
		}
		text = st.Buf
	}
	// a header needs its line end to be known complete
	if c.FCut && c.Fs[len(c.Fs)-1].Trees > 0 {
		text = bytes.TrimRight(text, "\r\n")
	}
	in := sim.NewStream(append([]byte(nil), text...))
	in.WithEOF, in.Zero = c.EOF, c.Zero
	d := tab
	if c.Test != 0 {
		d = testTable(tab, c.Test)
	}
	data := d.AFM(false, nil, true, false)
	var got []gotForest
	var err error
	res := x.Lib(nil, nil, func() { got, err = readAll(in, c.ByTr, 5000) })
	x.MustEnd(res, "reading")
	if err != io.EOF {
		x.Fail("refused", "reading a healthy stream ends with: %v", err)
	}
	if m := sameForests(got, want); m != "" {
		x.Fail("changed", "%s (the text begins %q)", m, firstLines(string(text), 3))
	}
	x.Count("forests read back", len(got))
	// votes
	var said []map[int][]string
	res = x.Lib(nil, nil, func() {
		fm := CF.ParseAFM(bytes.NewReader(data))
		fr := CF.NewForestReader(bytes.NewReader(text))
		for {
			t, _, e := fr.ReadTree()
			if t != nil {
				b := &ballots{map[int][]string{}}
				t.Vote(fm, b)
				said = append(said, b.votes)
			}
			if e != nil {
				return
			}
		}
	})
	x.MustEnd(res, "voting")
	k := 0
	for _, s := range want {
		for _, t := range s.Trees {
			if k >= len(said) {
				x.Fail("votes", "only %d trees voted", k)
			}
			w := "1"
			if t.Weight >= 0 {
				w = strconv.FormatFloat(t.Weight, 'g', -1, 64)
			}
			for i := range d.Cases {
				l, err := t.leaf(d, i)
				if err != nil {
					x.Fail("harness", "%v", err)
				}
				e := ""
				if l != nil {
					e = l.Pred + " weight " + w
				}
				if g := strings.Join(said[k][i], "|"); g != e {
					x.Fail("votes", "tree %d read back votes %q for case %d, as written it says %q", k, g, i, e)
				}
			}
			k++
		}
	}
	x.Count("trees voting", k)
}

func (c *RT) write(w io.Writer, want []*SF) error {
	fw := CF.NewForestWriter(w)
	for i, s := range want {
		f := &CF.Forest{Target: s.Target, Intercept: s.Intercept}
		for _, t := range s.Trees {
			f.Trees = append(f.Trees, t.toCF())
		}
		if c.How == "forest" && (i == 0 && len(s.Trees) > 0 || s.HasInter) {
			if err := fw.WriteForest(f); err != nil {
				return err
			}
			continue
		}
		if s.Forests > 0 {
			if err := fw.WriteForestHeader(i, f.Target, f.Intercept); err != nil {
				return err
			}
		}
		for k, t := range f.Trees {
			if c.How != "nodes" {
				if err := fw.WriteTree(t, k); err != nil {
					return err
				}
				continue
			}
			if err := fw.WriteTreeHeader(k, t.Target, t.Weight); err != nil {
				return err
			}
			if err := fw.WriteNodeAndChildren(t.Root, "*"); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "P11", Quick: 40000, Real: []string{"forest reader", "forest writer", "tree voting", "data loading"}, Scenarios: []*Scenario{
		scen("roundtrip", 3, func(r *sim.RNG, tier string) RT { return genRT(r) }, runP11, RT.shrinks),
		scen("library", 1, func(r *sim.RNG, tier string) LG { return genLG(r, r.Intn(3) == 0) }, runLibSaved, LG.shrinks),
	}})
}
