package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// TNode is a node of a tree in the harness' representation: a leaf when Split is false.
type TNode struct {
	Split   bool
	Feat    string
	Num     bool
	Val     float64
	Left    map[string]bool
	Pred    string
	L, R, M *TNode
}

// TTree is one tree.
type TTree struct {
	Target string
	Weight float64 // <0: none
	Root   *TNode
	Index  string
}

func (n *TNode) String() string {
	if n == nil {
		return "!"
	}
	if !n.Split {
		return "<" + n.Pred + ">"
	}
	s := "(" + n.Feat
	if n.Num {
		s += "<=" + strconv.FormatFloat(n.Val, 'g', -1, 64)
	} else {
		var k []string
		for l, v := range n.Left {
			if v {
				k = append(k, l)
			}
		}
		sort.Strings(k)
		s += " in {" + strings.Join(k, ":") + "}"
	}
	if n.Pred != "" {
		s += " predicts " + n.Pred
	}
	s += " " + n.L.String() + " " + n.R.String()
	if n.M != nil {
		s += " missing " + n.M.String()
	}
	return s + ")"
}

func (t *TTree) String() string {
	return fmt.Sprintf("target %s weight %v %s", t.Target, t.Weight, t.Root.String())
}

// each visits all nodes in preorder.
func (n *TNode) each(depth int, f func(n *TNode, depth int)) {
	if n == nil {
		return
	}
	f(n, depth)
	n.L.each(depth+1, f)
	n.R.each(depth+1, f)
	n.M.each(depth+1, f)
}

// snapshot copies a CloudForest tree; a node without splitter is a leaf whatever hangs below it.
func snapshot(t *CF.Tree) *TTree {
	w := t.Weight
	if !(w >= 0) {
		w = -1
	}
	return &TTree{Target: t.Target, Weight: w, Root: snapNode(t.Root, 0, map[*CF.Node]*TNode{})}
}

// A node that several branches lead to, as in a jungle, is copied once.
func snapNode(n *CF.Node, depth int, seen map[*CF.Node]*TNode) *TNode {
	if n == nil || depth > 2000 {
		return nil
	}
	if o := seen[n]; o != nil {
		return o
	}
	o := &TNode{Pred: n.Pred}
	seen[n] = o
	if n.Splitter == nil {
		return o
	}
	o.Split = true
	o.Feat = n.Splitter.Feature
	o.Num = n.Splitter.Numerical
	if o.Num {
		o.Val = n.Splitter.Value
	} else {
		o.Left = map[string]bool{}
		for k, v := range n.Splitter.Left {
			if v {
				o.Left[k] = true
			}
		}
	}
	o.L, o.R, o.M = snapNode(n.Left, depth+1, seen), snapNode(n.Right, depth+1, seen), snapNode(n.Missing, depth+1, seen)
	return o
}

// child returns where case i goes: a child, or nil when it stops (missing value and no missing branch).
func (n *TNode) child(t *Table, i int) (*TNode, error) {
	f := t.get(n.Feat)
	if f == nil {
		return nil, fmt.Errorf("the tree splits on %q, which is not in the data", n.Feat)
	}
	if f.Miss[i] {
		return n.M, nil
	}
	if f.Num != n.Num {
		return nil, fmt.Errorf("the split on %q has the wrong type", n.Feat)
	}
	if n.Num && f.Val[i] <= n.Val || !n.Num && n.Left[f.Str[i]] {
		return n.L, nil
	}
	return n.R, nil
}

// leaf routes a case to its leaf (nil when it reaches none).
func (t *TTree) leaf(d *Table, i int) (*TNode, error) {
	n := t.Root
	for n != nil && n.Split {
		c, err := n.child(d, i)
		if err != nil {
			return nil, err
		}
		n = c
	}
	return n, nil
}

// SF is a parsed forest file.
type SF struct {
	Forests   int
	Intercept float64
	HasInter  bool
	Target    string
	Trees     []*TTree
}

// parseLine splits KEY=VALUE clauses; quoted values may hold anything.
func parseLine(l string) (map[string]string, error) {
	m := map[string]string{}
	for len(l) > 0 {
		e := strings.IndexByte(l, '=')
		if e < 0 {
			return nil, fmt.Errorf("no value in %q", l)
		}
		k := l[:e]
		l = l[e+1:]
		var v string
		if strings.HasPrefix(l, "\"") {
			q := strings.IndexByte(l[1:], '"')
			if q < 0 {
				return nil, fmt.Errorf("unterminated quote in %q", l)
			}
			v = l[1 : 1+q]
			l = l[q+2:]
			if l != "" && l[0] != ',' {
				return nil, fmt.Errorf("text after quote: %q", l)
			}
			l = strings.TrimPrefix(l, ",")
		} else {
			c := strings.IndexByte(l, ',')
			if c < 0 {
				v, l = l, ""
			} else {
				v, l = l[:c], l[c+1:]
			}
		}
		if _, dup := m[k]; dup {
			return nil, fmt.Errorf("%s twice", k)
		}
		m[k] = v
	}
	return m, nil
}

// parseSF parses a forest file strictly: whole lines, trees contiguous and in preorder, every split node with both
// children, every leaf with a prediction.
func parseSF(b []byte) (*SF, error) {
	s := &SF{}
	if len(b) == 0 {
		return s, nil
	}
	if b[len(b)-1] != '\n' {
		return s, fmt.Errorf("the last line is cut")
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	i := 0
	for i < len(lines) {
		l := lines[i]
		m, err := parseLine(l)
		if err != nil {
			return s, fmt.Errorf("line %d %q: %v", i+1, l, err)
		}
		switch {
		case strings.HasPrefix(l, "FOREST="):
			if len(s.Trees) > 0 || s.Forests > 0 {
				return s, fmt.Errorf("line %d: a forest header inside the forest", i+1)
			}
			s.Forests++
			s.Target = m["TARGET"]
			if v, ok := m["INTERCEPT"]; ok {
				s.HasInter = true
				s.Intercept, err = strconv.ParseFloat(v, 64)
				if err != nil {
					return s, fmt.Errorf("line %d: %v", i+1, err)
				}
			}
			i++
		case strings.HasPrefix(l, "TREE="):
			t := &TTree{Target: m["TARGET"], Weight: -1, Index: m["TREE"]}
			if v, ok := m["WEIGHT"]; ok {
				t.Weight, err = strconv.ParseFloat(v, 64)
				if err != nil {
					return s, fmt.Errorf("line %d: %v", i+1, err)
				}
			}
			i++
			t.Root, err = parseNode(lines, &i, "*")
			if err != nil {
				return s, fmt.Errorf("tree %d of the file: %v", len(s.Trees), err)
			}
			s.Trees = append(s.Trees, t)
		default:
			return s, fmt.Errorf("line %d: unexpected %q", i+1, l)
		}
	}
	return s, nil
}

func parseNode(lines []string, i *int, path string) (*TNode, error) {
	if *i >= len(lines) {
		return nil, fmt.Errorf("node %s is missing at the end", path)
	}
	l := lines[*i]
	m, err := parseLine(l)
	if err != nil {
		return nil, fmt.Errorf("line %d %q: %v", *i+1, l, err)
	}
	if !strings.HasPrefix(l, "NODE=") || m["NODE"] != path {
		return nil, fmt.Errorf("line %d: found %q where node %s belongs", *i+1, l, path)
	}
	*i++
	n := &TNode{Pred: m["PRED"]}
	st, split := m["SPLITTERTYPE"]
	if !split {
		if _, ok := m["PRED"]; !ok {
			return nil, fmt.Errorf("line %d: leaf %s without a prediction", *i, path)
		}
		return n, nil
	}
	n.Split = true
	n.Feat = m["SPLITTER"]
	switch st {
	case "NUMERICAL":
		n.Num = true
		n.Val, err = strconv.ParseFloat(m["LVALUES"], 64)
		if err != nil {
			return nil, fmt.Errorf("line %d: %v", *i, err)
		}
	case "CATEGORICAL":
		n.Left = map[string]bool{}
		for _, c := range strings.Split(m["LVALUES"], ":") {
			n.Left[c] = true
		}
	default:
		return nil, fmt.Errorf("line %d: unknown split type %q", *i, st)
	}
	if n.L, err = parseNode(lines, i, path+"L"); err != nil {
		return nil, err
	}
	if n.R, err = parseNode(lines, i, path+"R"); err != nil {
		return nil, err
	}
	if *i < len(lines) && strings.HasPrefix(lines[*i], "NODE="+path+"M") {
		if n.M, err = parseNode(lines, i, path+"M"); err != nil {
			return nil, err
		}
	}
	return n, nil
}

// emit writes a forest file (the harness' own writer).
func (t *TTree) emit(b *strings.Builder, idx int) {
	fmt.Fprintf(b, "TREE=%d,TARGET=\"%s\"", idx, t.Target)
	if t.Weight >= 0 {
		fmt.Fprintf(b, ",WEIGHT=%v", t.Weight)
	}
	b.WriteString("\n")
	t.Root.emit(b, "*")
}

func (n *TNode) emit(b *strings.Builder, path string) {
	fmt.Fprintf(b, "NODE=%s", path)
	if !n.Split {
		fmt.Fprintf(b, ",PRED=%s\n", n.Pred)
		return
	}
	if n.Pred != "" {
		fmt.Fprintf(b, ",PRED=%s", n.Pred)
	}
	if n.Num {
		fmt.Fprintf(b, ",SPLITTER=%s,SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v\n", n.Feat, n.Val, n.Val)
	} else {
		var k []string
		for l := range n.Left {
			k = append(k, l)
		}
		sort.Strings(k)
		fmt.Fprintf(b, ",SPLITTER=%s,SPLITTERTYPE=CATEGORICAL,LVALUES=\"%s\"\n", n.Feat, strings.Join(k, ":"))
	}
	n.L.emit(b, path+"L")
	n.R.emit(b, path+"R")
	if n.M != nil {
		n.M.emit(b, path+"M")
	}
}
