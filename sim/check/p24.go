package main

import (
	"encoding/json"
	"fmt"

	"cfsim/sim"
)

type skNode struct {
	Left      int     `json:"left_child"`
	Right     int     `json:"right_child"`
	Feature   int     `json:"feature"`
	Threshold float64 `json:"threshold"`
}

type skTree struct {
	MaxDepth  int      `json:"max_depth"`
	NodeCount int      `json:"node_count"`
	Capacity  int      `json:"capacity"`
	Nodes     []skNode `json:"nodes"`
}

// shape describes a tree by what the export holds of it: features, numerical thresholds and both children.
func (n *TNode) shape() string {
	if n == nil || !n.Split {
		return "."
	}
	s := n.Feat
	if n.Num {
		s += fmt.Sprintf("<=%v", n.Val)
	}
	return "(" + s + " " + n.L.shape() + " " + n.R.shape() + ")"
}

// shape follows the children from the root and describes what it finds as TNode.shape does.
func (t *skTree) shape(names []string, numerical map[string]bool) (s string, err error) {
	if len(t.Nodes) != t.NodeCount || t.Capacity < t.NodeCount {
		return "", fmt.Errorf("%d nodes are listed, node_count is %d and capacity %d", len(t.Nodes), t.NodeCount, t.Capacity)
	}
	seen := make([]bool, len(t.Nodes))
	deepest := 0
	var walk func(i, depth int) string
	walk = func(i, depth int) string {
		if i < 0 || i >= len(t.Nodes) {
			err = fmt.Errorf("there is no node %d", i)
			return ""
		}
		if seen[i] {
			err = fmt.Errorf("node %d has several parents", i)
			return ""
		}
		seen[i] = true
		if depth > deepest {
			deepest = depth
		}
		n := t.Nodes[i]
		if n.Left < 0 || n.Right < 0 {
			if n.Left != n.Right {
				err = fmt.Errorf("node %d has one child", i)
			}
			return "."
		}
		if n.Feature < 0 || n.Feature >= len(names) {
			err = fmt.Errorf("node %d splits on feature %d of %d", i, n.Feature, len(names))
			return ""
		}
		s := names[n.Feature]
		if numerical[s] {
			s += fmt.Sprintf("<=%v", n.Threshold)
		}
		l := ""
		if err == nil {
			l = walk(n.Left, depth+1)
		}
		r := ""
		if err == nil {
			r = walk(n.Right, depth+1)
		}
		return "(" + s + " " + l + " " + r + ")"
	}
	s = walk(0, 0)
	if err != nil {
		return
	}
	for i, ok := range seen {
		if !ok {
			return "", fmt.Errorf("node %d can't be reached from the root", i)
		}
	}
	if deepest != t.MaxDepth {
		return "", fmt.Errorf("max_depth is %d, the deepest leaf is at %d", t.MaxDepth, deepest)
	}
	return
}

// P24: the export has exactly the trees of the saved forest.
func checkExport(x *Ctx, c *GF) {
	q := runGF(x, c, true, nil, nil)
	x.MustEnd(q.Res, "growforest")
	q.load(x)
	b, ok := q.FS.Get("sk.json")
	x.Check(ok, "no-export", "the run ended with status 0 but there is no export")
	var ex []skTree
	if err := json.Unmarshal(b, &ex); err != nil {
		x.Fail("malformed", "the export can't be parsed: %v: %s", err, tail(string(b), 300))
	}
	x.Check(len(ex) == len(q.SF.Trees), "count", "%d trees are exported, %d saved", len(ex), len(q.SF.Trees))
	grown := q.Grows()
	var names []string
	num := map[string]bool{}
	for _, f := range grown[len(grown)-1].Tab.Feats {
		names = append(names, f.Name)
		num[f.Name] = f.Num
	}
	left := map[string]int{}
	for _, t := range q.SF.Trees {
		left[t.Root.shape()]++
	}
	for i := range ex {
		s, err := ex[i].shape(names, num)
		if err != nil {
			x.Fail("structure", "exported tree %d: %v", i, err)
		}
		if left[s] == 0 {
			x.Fail("foreign-tree", "exported tree %d is not one of the saved trees (or is there too often): %s", i, tail(s, 800))
		}
		left[s]--
	}
	x.Count("trees", len(ex))
}

func init() {
	register(&Property{ID: "P24", Quick: 15000, Real: append([]string{"scikit-learn export (sklearn_tree.go)"}, growReal...), Scenarios: []*Scenario{
		scen("grow", 3, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.SplitM = c.SplitM || r.Intn(4) == 0
			c.Progress = r.Intn(6) == 0
			c.SelfTest = r.Intn(6) == 0
			c.Imp = r.Intn(6) == 0
			if r.Intn(5) == 0 {
				c.ConAll = true
			}
			c.Scikit, c.NoRF = true, false
			return c
		}, checkExport, GF.shrinks),
		scen("kinds", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			if r.Intn(3) == 0 {
				c.boost(r)
			} else {
				c.kind(r)
			}
			c.Scikit, c.NoRF = true, false
			return c
		}, checkExport, GF.shrinks),
		scen("ace", 1, func(r *sim.RNG, tier string) GF {
			c := genGF(r)
			c.ACE = 2 + r.Intn(3)
			c.Trees = 1 + r.Intn(6)
			if r.Intn(2) == 0 {
				c.Cutoff = 0.5
			}
			c.Scikit, c.NoRF = true, false
			return c
		}, checkExport, GF.shrinks),
	}})
}
