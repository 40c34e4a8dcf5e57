From 470679ba74887a6724de6e0a0cb1f5a42da0b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 01/71] fix: guard the category map of CatBallotBox against
 concurrent votes

---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..067a10c 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box      []*CatBallot
+	catMutex sync.RWMutex //guards the CatMap shared by all ballots
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.catMutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.catMutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -65,7 +68,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.catMutex.RLock()
 		predicted = bb.Back[predictedn]
+		bb.catMutex.RUnlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 699f223b9f9c4db75a1dc342e11d7b33191f0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 02/71] fix: make CatBallotBox tallies independent of map and
 vote order

---
 catballotbox.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index 067a10c..e29d674 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -53,30 +53,24 @@ func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
 
 //Tally tallies the votes for the case specified by i as
 //if it is a Categorical or boolean feature. Ie it returns the mode
-//(the most frequent value) of all votes.
+//(the most frequent value) of all votes. Ties are resolved in favor of
+//the category that sorts first so the result doesn't depend on the order
+//in which votes arrived.
 func (bb *CatBallotBox) Tally(i int) (predicted string) {
-	predictedn := 0
+	predicted = "NA"
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
+	bb.catMutex.RLock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
-			predictedn = k
+		if v > votes || (v == votes && votes > 0 && bb.Back[k] < predicted) {
+			predicted = bb.Back[k]
 			votes = v
-
 		}
-
 	}
+	bb.catMutex.RUnlock()
 	bb.Box[i].Mutex.Unlock()
-	if votes > 0 {
-		bb.catMutex.RLock()
-		predicted = bb.Back[predictedn]
-		bb.catMutex.RUnlock()
-	} else {
-		predicted = "NA"
-	}
 
 	return
-
 }
 
 /*
-- 
2.43.0


From 008366f83088649c27f10220d290cca3af362ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 03/71] fix: drop stale children from leaves of reused trees

---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..56d0216 100644
--- a/tree.go
+++ b/tree.go
@@ -169,6 +169,10 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		//the tree may be being reused so make sure the leaf has no children
+		n.Left = nil
+		n.Right = nil
+		n.Missing = nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -262,6 +266,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left = nil
+			n.Right = nil
+			n.Missing = nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From fa7d59009d689bad353ce06a5bbde3031f178a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 04/71] fix: don't keep empty missing branches that have no
 prediction

---
 node.go | 6 +++++-
 tree.go | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index 3b45e43..eb3f0e8 100644
--- a/node.go
+++ b/node.go
@@ -78,7 +78,11 @@ func (n *Node) CodedRecurse(r CodedRecursable, fm *FeatureMatrix, cases *[]int,
 		n.Left.CodedRecurse(r, fm, &cs, depth, nconstants)
 		cs = (*cases)[ri:]
 		n.Right.CodedRecurse(r, fm, &cs, depth, nconstants)
-		if li != ri && n.Missing != nil {
+		if li == ri {
+			//no cases are missing so there is nothing to predict from
+			n.Missing = nil
+		}
+		if n.Missing != nil {
 			cs = (*cases)[li:ri]
 			n.Missing.CodedRecurse(r, fm, &cs, depth, nconstants)
 		}
diff --git a/tree.go b/tree.go
index 56d0216..f9c7f1f 100644
--- a/tree.go
+++ b/tree.go
@@ -156,6 +156,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				n.Missing = nil
 				if splitmissing {
 					n.Missing = new(Node)
 				}
@@ -250,11 +251,10 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
-					if splitmissing {
+					n.Missing = nil
+					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						if li != ri {
-							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
-						}
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 					}
 
 					continue
-- 
2.43.0


From 574f377d17c06aa07979bc399dbc8b4ea746f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 05/71] fix: write the missing branch of a node instead of its
 right branch again

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 8fca4def3d46588764c6050fb9c57372b8ae1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 06/71] fix: write the categories of a split in a fixed order

---
 forestwriter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..3e0aae1 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -3,6 +3,7 @@ package CloudForest
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -101,5 +102,6 @@ func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	for k := range input {
 		keys = append(keys, k)
 	}
+	sort.Strings(keys)
 	return "\"" + strings.Join(keys, ":") + "\""
 }
-- 
2.43.0


From 44735cfcc63592427d88c11df827ec435214b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 07/71] fix: parse forest lines with incomplete clauses or = in
 names without panicking

---
 forestreader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..7bbc431 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -172,7 +172,7 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 			insidequotes = append(insidequotes, term)
 		} else {
 			//If the term doesn't have an = in it join it to the last term
-			if strings.Count(term, "=") == 0 {
+			if strings.Count(term, "=") == 0 && len(clauses) > 0 {
 				clauses[len(clauses)-1] += "," + term
 			} else {
 				clauses = append(clauses, term)
@@ -187,12 +187,14 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		//feature names and values may contain = so only split at the first
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
 		if len(vs) != 2 {
 			fmt.Println("Parser Choked on : \"", line, "\"")
+			continue
 		}
 		parsed[vs[0]] = vs[1]
 	}
-- 
2.43.0


From 270b4fa5f68cf5b9e5c90fdf9d32ca62ba1e0c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 08/71] fix: return read errors from ReadForest and keep a last
 line without newline

---
 forestreader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 7bbc431..6b9ca21 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
@@ -83,7 +83,8 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		//the last line may lack a newline but it should still be parsed
+		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 3fc4dde85573ab7b099c03d97eebb87f4f0aec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 09/71] fix: report trees cut off by the end of the stream as
 an unexpected EOF

---
 forestreader.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index 6b9ca21..03f4968 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -68,6 +68,20 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 	}
 }
 
+//complete checks that the tree has a root and that every split has both branches.
+func (t *Tree) complete() bool {
+	if t.Root == nil {
+		return false
+	}
+	complete := true
+	t.Root.Climb(func(n *Node) {
+		if n.Splitter != nil && (n.Left == nil || n.Right == nil) {
+			complete = false
+		}
+	})
+	return complete
+}
+
 /*ForestReader.ReadTree reads the next tree from the underlying reader. If the next tree
 is in a new forest it returns a forest object as well. If an io.EOF or other error is
 encountered it returns that as well as any partially parsed structs.*/
@@ -75,10 +89,15 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 	intree := false
 	line := ""
 	peek := []byte(" ")
+	cut := false
 	for {
 		peek, err = fr.br.Peek(1)
 		//If their is no next line or it starts a new Tree or Forest return
 		if err != nil || (intree && (peek[0] == 'T' || peek[0] == 'F')) {
+			if (err == nil || err == io.EOF) && (cut || (intree && !tree.complete())) {
+				//the stream ended or went on before all nodes of the tree were read
+				err = io.ErrUnexpectedEOF
+			}
 			return
 		}
 
@@ -150,6 +169,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 				}
 			}
 
+			if pred == "" && splitter == nil && !strings.HasSuffix(line, "\n") {
+				cut = true
+			}
+
 			tree.AddNode(parsed["NODE"], pred, splitter)
 
 		}
-- 
2.43.0


From b1582b4fd0f9d748252e2d56c630be87b9f940eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 10/71] fix: guard the split record shared by leafcount threads

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..1b35638 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -85,6 +87,8 @@ func main() {
 					if *soutf != "" {
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
+								splitsMutex.Lock()
+								defer splitsMutex.Unlock()
 								name := n.Splitter.Feature
 								_, ok := splits[name]
 								if !ok {
-- 
2.43.0


From 1d6448fda4c8b4677d15e81bfe88337aa4dcca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 11/71] fix: return write errors from ForestWriter

---
 forestwriter.go | 56 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 3e0aae1..fba687d 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -23,61 +23,80 @@ func NewForestWriter(w io.Writer) *ForestWriter {
 	return &ForestWriter{w}
 }
 
-//WriteForest writes an entire forest including all headers.
-func (fw *ForestWriter) WriteForest(forest *Forest) {
+//WriteForest writes an entire forest including all headers. It stops at and
+//returns the first error encountered.
+func (fw *ForestWriter) WriteForest(forest *Forest) error {
 	if forest.Intercept != 0.0 {
-		fw.WriteForestHeader(0, forest.Target, forest.Intercept)
+		if err := fw.WriteForestHeader(0, forest.Target, forest.Intercept); err != nil {
+			return err
+		}
 	}
 	for i, tree := range forest.Trees {
-		fw.WriteTree(tree, i)
+		if err := fw.WriteTree(tree, i); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 //WriteTree writes an entire Tree including the header.
-func (fw *ForestWriter) WriteTree(tree *Tree, ntree int) {
-	fw.WriteTreeHeader(ntree, tree.Target, tree.Weight)
-	fw.WriteNodeAndChildren(tree.Root, "*")
+func (fw *ForestWriter) WriteTree(tree *Tree, ntree int) error {
+	if err := fw.WriteTreeHeader(ntree, tree.Target, tree.Weight); err != nil {
+		return err
+	}
+	return fw.WriteNodeAndChildren(tree.Root, "*")
 }
 
 //WrieTreeHeader writes only the header line for a tree.
-func (fw *ForestWriter) WriteTreeHeader(ntree int, target string, weight float64) {
+func (fw *ForestWriter) WriteTreeHeader(ntree int, target string, weight float64) error {
 	weightterm := ""
 	if weight >= 0.0 {
 		weightterm = fmt.Sprintf(",WEIGHT=%v", weight)
 	}
-	fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm)
+	_, err := fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm)
+	return err
 }
 
 //WrieTreeHeader writes only the header line for a tree.
-func (fw *ForestWriter) WriteForestHeader(nforest int, target string, intercept float64) {
+func (fw *ForestWriter) WriteForestHeader(nforest int, target string, intercept float64) error {
 	interceptterm := ""
 	if intercept != 0.0 {
 		interceptterm = fmt.Sprintf(",INTERCEPT=%v", intercept)
 	}
-	fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm)
+	_, err := fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm)
+	return err
 }
 
 //WriteNodeAndChildren recursively writes out the target node and all of its children.
 //WriteTree is preferred for most use cases.
-func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
+func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) error {
 
-	fw.WriteNode(n, path)
+	if err := fw.WriteNode(n, path); err != nil {
+		return err
+	}
 	if n.Splitter != nil && n.Left != nil {
-		fw.WriteNodeAndChildren(n.Left, path+"L")
+		if err := fw.WriteNodeAndChildren(n.Left, path+"L"); err != nil {
+			return err
+		}
 	}
 	if n.Splitter != nil && n.Right != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"R")
+		if err := fw.WriteNodeAndChildren(n.Right, path+"R"); err != nil {
+			return err
+		}
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Missing, path+"M")
+		if err := fw.WriteNodeAndChildren(n.Missing, path+"M"); err != nil {
+			return err
+		}
 	}
+	return nil
 
 }
 
 //WriteNode writes a single node but not it's children. WriteTree will be used more
 //often but WriteNode can be used to grow a large tree directly to disk without
 //storing it in memory.
-func (fw *ForestWriter) WriteNode(n *Node, path string) {
+func (fw *ForestWriter) WriteNode(n *Node, path string) error {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
 		node += fmt.Sprintf(",PRED=%v", n.Pred)
@@ -93,7 +112,8 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 			node += fmt.Sprintf(",SPLITTERTYPE=CATEGORICAL,LVALUES=%v", left)
 		}
 	}
-	fmt.Fprintln(fw.w, node)
+	_, err := fmt.Fprintln(fw.w, node)
+	return err
 }
 
 //DescribeMap serializes the "left" map of a categorical splitter.
-- 
2.43.0


From cec20e9e7cf5530a69dfd9f93d07ecf4ada72172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 12/71] fix: self-test every saved tree once when the last
 trees grow in parallel

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..30c07a0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -713,7 +713,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From a80581e9ceb4a5b30fc141160bad7448112ba662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 13/71] fix: grow only the requested trees when there are more
 cores than trees

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 30c07a0..9660c62 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -205,6 +205,11 @@ func main() {
 		nCores = 1
 	}
 
+	if nCores > nTrees {
+		//don't start workers that have no tree to grow
+		nCores = nTrees
+	}
+
 	if nCores > 1 {
 
 		runtime.GOMAXPROCS(nCores)
-- 
2.43.0


From c5b05f29eefcbe20c718030f56de637f204bc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 14/71] fix: don't hang or panic when multithreaded boosting
 stops early

---
 growforest/growforest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 9660c62..e1c6948 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -588,7 +588,6 @@ func main() {
 		var waitGroup sync.WaitGroup
 
 		waitGroup.Add(nCores)
-		treechan := make(chan *CloudForest.Tree, 0)
 		//fmt.Println("forest ", foresti)
 		//Grow a single forest on nCores
 		for core := 0; core < nCores; core++ {
@@ -689,7 +688,9 @@ func main() {
 						boostMutex.Unlock()
 						if weight == math.Inf(1) {
 							fmt.Printf("Boosting Reached Weight of %v\n", weight)
-							close(treechan)
+							if nCores > 1 {
+								waitGroup.Done()
+							}
 							break
 						}
 
-- 
2.43.0


From 0d8eac580c2ee63f3e5d38585655a3cda48a0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 15/71] fix: count trees that use a feature only at the root in
 the importance report

---
 growforest/growforest.go | 7 +++++--
 tree.go                  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index e1c6948..8d807a9 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -617,6 +617,9 @@ func main() {
 				var depthUsed *[]int
 				if mmdpnt != nil {
 					du := make([]int, len(data.Data))
+					for i := range du {
+						du[i] = -1
+					}
 					depthUsed = &du
 				}
 
@@ -673,9 +676,9 @@ func main() {
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-							if v != 0 {
+							if v >= 0 {
 								(*mmdpnt)[i].Add(float64(v))
-								(*depthUsed)[i] = 0
+								(*depthUsed)[i] = -1
 							}
 
 						}
diff --git a/tree.go b/tree.go
index f9c7f1f..b3ca7fe 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,9 @@ leafSize specifies the minimum number of cases at a leafNode.
 splitmissing indicates if missing values should be split onto a third branch
 
 vet indicates if splits should be penalized against a randomized version of them selves
+
+depthUsed, if it isn't nil, records the smallest depth each feature is used at; the entries of
+features that haven't been used yet must be negative.
 */
 func (t *Tree) Grow(fm *FeatureMatrix,
 	target Target,
@@ -142,7 +145,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+				if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 					(*depthUsed)[fi] = depth
 				}
 				//not a leaf node so define the splitter and left and right nodes
@@ -230,7 +233,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+					if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 						(*depthUsed)[fi] = depth
 					}
 
-- 
2.43.0


From d4d3cf5f486804f0ae110530c2296e6a4d281e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 16/71] fix: use all cases with a known target when growing
 without bagging

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 8d807a9..19a02bf 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -607,7 +607,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From 19d1594bc37ed75a5f8c75aa5b609b6a1dda2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 17/71] fix: stop the split search once all features have been
 tried

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..479a519 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -190,7 +190,7 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {
 
 		//Break early if there aren't any more nonconstant features
-		if nConstants >= lcans {
+		if nConstants >= lcans || nDrawnConstants+lastSample >= lcans {
 			return
 		}
 
-- 
2.43.0


From e58868721a34978ea458a0e2a40ef6e90cd731a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 18/71] fix: don't panic when balancing by a feature with
 classes that lack a target class

---
 sampeling.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..0285782 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,9 +28,21 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = dropEmpty(s.Cases)
 	return
 }
 
+//dropEmpty returns the classes that have at least one case.
+func dropEmpty(classes [][]int) [][]int {
+	nonempty := make([][]int, 0, len(classes))
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			nonempty = append(nonempty, cases)
+		}
+	}
+	return nonempty
+}
+
 //Sample samples n integers in a balnced-with-replacment fashion into the provided array.
 func (s *BalancedSampler) Sample(samples *[]int, n int) {
 	(*samples) = (*samples)[0:0]
@@ -73,6 +85,11 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+
+	//classes that don't occur within a secondary class can't be sampled there
+	for i, classes := range s.Samplers {
+		s.Samplers[i] = dropEmpty(classes)
+	}
 	return
 
 }
-- 
2.43.0


From a48536e77df030d19a91a97bae37df2548477aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 19/71] fix: exit growforest with a failure when writing or
 closing an output fails

---
 growforest/growforest.go | 41 +++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 19a02bf..04ac04c 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -19,6 +19,14 @@ import (
 	"time"
 )
 
+//closeOutput closes an output file and exits with a failure if that fails so that
+//success is never reported over incomplete output.
+func closeOutput(f *os.File) {
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
+}
+
 func main() {
 	fm := flag.String("train",
 		"featurematrix.afm", "AFM formated feature matrix containing training data.")
@@ -524,11 +532,14 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer forestfile.Close()
+		defer closeOutput(forestfile)
 		forestwriter = CloudForest.NewForestWriter(forestfile)
 		switch target.(type) {
 		case CloudForest.TargetWithIntercept:
-			forestwriter.WriteForestHeader(0, *targetname, target.(CloudForest.TargetWithIntercept).Intercept())
+			err = forestwriter.WriteForestHeader(0, *targetname, target.(CloudForest.TargetWithIntercept).Intercept())
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 	//****************** Setup For ACE ********************************//
@@ -710,7 +721,10 @@ func main() {
 					}
 
 					if forestwriter != nil && foresti == nForest-1 {
-						forestwriter.WriteTree(tree, treesFinished)
+						err := forestwriter.WriteTree(tree, treesFinished)
+						if err != nil {
+							log.Fatal(err)
+						}
 					}
 
 					if scikitforest != "" {
@@ -846,7 +860,7 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer skfile.Close()
+		defer closeOutput(skfile)
 		skencoder := json.NewEncoder(skfile)
 		err = skencoder.Encode(scikikittrees)
 		if err != nil {
@@ -862,9 +876,12 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer caseoobfile.Close()
+		defer closeOutput(caseoobfile)
 		for i := 0; i < unboostedTarget.Length(); i++ {
-			fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			_, err = fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -874,14 +891,17 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer impfile.Close()
+		defer closeOutput(impfile)
 		if ace > 0 {
 
 			for i := 0; i < firstace; i++ {
 
 				p, _, _, m := stats.Ttest(&aceImps[i], &aceImps[i+firstace])
 
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				_, err = fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		} else {
@@ -889,7 +909,10 @@ func main() {
 			for i, v := range *imppnt {
 				mean, count := v.Read()
 				meanMinDepth, treeCount := (*mmdpnt)[i].Read()
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				_, err = fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		}
-- 
2.43.0


From 48e9e4797bb8b4a7541f39bda59b71e2ec206021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 20/71] fix: exit applyforest with a failure when writing or
 closing an output fails

---
 applyforest/applyforest.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..6f9deff 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -9,6 +9,21 @@ import (
 	"strings"
 )
 
+//closeOutput closes an output file and exits with a failure if that fails so that
+//success is never reported over incomplete output.
+func closeOutput(f *os.File) {
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
+}
+
+//write writes to an output file and exits with a failure if that fails.
+func write(f *os.File, format string, vals ...interface{}) {
+	if _, err := fmt.Fprintf(f, format, vals...); err != nil {
+		log.Fatal(err)
+	}
+}
+
 func main() {
 	fm := flag.String("fm",
 		"featurematrix.afm", "AFM formated feature matrix containing data.")
@@ -52,7 +67,7 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer predfile.Close()
+		defer closeOutput(predfile)
 	}
 
 	var bb CloudForest.VoteTallyer
@@ -102,7 +117,7 @@ func main() {
 			} else {
 				result = bb.Tally(i)
 			}
-			fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			write(predfile, "%v\t%v\t%v\n", l, result, actual)
 		}
 	}
 
@@ -114,25 +129,25 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer votefile.Close()
-		fmt.Fprintf(votefile, ".")
+		defer closeOutput(votefile)
+		write(votefile, ".")
 
 		for _, lable := range cbb.CatMap.Back {
-			fmt.Fprintf(votefile, "\t%v", lable)
+			write(votefile, "\t%v", lable)
 		}
-		fmt.Fprintf(votefile, "\n")
+		write(votefile, "\n")
 
 		for i, box := range cbb.Box {
-			fmt.Fprintf(votefile, "%v", data.CaseLabels[i])
+			write(votefile, "%v", data.CaseLabels[i])
 
 			for j, _ := range cbb.CatMap.Back {
 				total := 0.0
 				total = box.Map[j]
 
-				fmt.Fprintf(votefile, "\t%v", total)
+				write(votefile, "\t%v", total)
 
 			}
-			fmt.Fprintf(votefile, "\n")
+			write(votefile, "\n")
 
 		}
 	}
-- 
2.43.0


From 715a3fab597d28e93510ca1b309cadb7302e6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 21/71] fix: exit leafcount with a failure when writing or
 closing an output fails

---
 leafcount/leafcount.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index 1b35638..43a726f 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -12,6 +12,14 @@ import (
 	"sync"
 )
 
+//closeOutput closes an output file and exits with a failure if that fails so that
+//success is never reported over incomplete output.
+func closeOutput(f *os.File) {
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
+}
+
 func main() {
 	fm := flag.String("fm", "featurematrix.afm", "AFM formated feature matrix to use.")
 	rf := flag.String("rfpred", "rface.sf", "A predictor forest.")
@@ -63,9 +71,9 @@ func main() {
 				if err != nil {
 					log.Fatal(err)
 				}
-				defer forestfile.Close()
 				forestreader := CloudForest.NewForestReader(forestfile)
 				forest, err := forestreader.ReadForest()
+				forestfile.Close()
 				if err != nil {
 					log.Fatal(err)
 				}
@@ -126,7 +134,7 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
-	defer outfile.Close()
+	defer closeOutput(outfile)
 	counts.WriteTsv(outfile)
 
 	if *boutf != "" {
@@ -135,7 +143,7 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer boutfile.Close()
+		defer closeOutput(boutfile)
 		caseFeatureCounts.WriteTsv(boutfile)
 	}
 
@@ -144,8 +152,11 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		defer soutfile.Close()
+		defer closeOutput(soutfile)
 		encoder := json.NewEncoder(soutfile)
-		encoder.Encode(splits)
+		err = encoder.Encode(splits)
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From b612e98f7b65d7bd17b7be95327b9175f55fb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 22/71] fix: exit toafm with a failure when closing the output
 fails

---
 utils/toafm/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/toafm/main.go b/utils/toafm/main.go
index d77d3f5..2a284e1 100644
--- a/utils/toafm/main.go
+++ b/utils/toafm/main.go
@@ -116,7 +116,6 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
-	defer outfile.Close()
 
 	if *libsvmtarget == "" {
 
@@ -168,4 +167,9 @@ func main() {
 
 	}
 
+	err = outfile.Close()
+	if err != nil {
+		log.Fatal(err)
+	}
+
 }
-- 
2.43.0


From 073834624528cae3d883bb3cc577f4dba08be315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 23/71] fix: return all write errors from the arff and libsvm
 writers

---
 arff.go   | 17 +++++++++++++----
 libsvm.go |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/arff.go b/arff.go
index 8c1b841..81aa7e9 100644
--- a/arff.go
+++ b/arff.go
@@ -79,7 +79,10 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 	  @ATTRIBUTE sepallength  NUMERIC
 	  @ATTRIBUTE class        {Iris-setosa,Iris-versicolor,Iris-virginica}*/
 
-	fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	_, err := fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	if err != nil {
+		return err
+	}
 
 	for _, f := range data.Data {
 		ftype := "NUMERIC"
@@ -88,10 +91,16 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		_, err = fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		if err != nil {
+			return err
+		}
 	}
 
-	fmt.Fprint(outfile, "\n@DATA\n")
+	_, err = fmt.Fprint(outfile, "\n@DATA\n")
+	if err != nil {
+		return err
+	}
 
 	oucsv := csv.NewWriter(outfile)
 	oucsv.Comma = ','
@@ -115,5 +124,5 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
diff --git a/libsvm.go b/libsvm.go
index 06e1c11..8ecc9bf 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -144,7 +144,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
 
 func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile io.Writer) error {
@@ -201,5 +201,5 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
-- 
2.43.0


From 8b5219f4d46a4cb6770a590ae4319deacdda740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 24/71] fix: exit nfold with a failure when writing or closing
 an output fails

---
 utils/nfold/main.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..de64d61 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -10,6 +10,23 @@ import (
 	"os"
 )
 
+//writefold writes the testing and training cases of a fold and closes the files. It exits
+//with a failure if that fails so that success is never reported over incomplete output.
+func writefold(trainW io.WriteCloser, testW io.WriteCloser, trainis []int, testis []int, write func(w io.Writer, cases []int) error) {
+	if err := write(testW, testis); err != nil {
+		log.Fatal(err)
+	}
+	if err := testW.Close(); err != nil {
+		log.Fatal(err)
+	}
+	if err := write(trainW, trainis); err != nil {
+		log.Fatal(err)
+	}
+	if err := trainW.Close(); err != nil {
+		log.Fatal(err)
+	}
+}
+
 func openfiles(trainfn string, testfn string) (trainW io.WriteCloser, testW io.WriteCloser) {
 
 	trainfo, err := os.Create(trainfn)
@@ -244,20 +261,21 @@ func main() {
 
 		if writearff || writeall {
 			trainW, testW := openfiles(trainfn+".arff", testfn+".arff")
-			CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			writefold(trainW, testW, trainis, foldis[i], func(w io.Writer, cases []int) error {
+				return CloudForest.WriteArffCases(data, cases, *targetname, w)
+			})
 		}
 
 		if ((!writelibsvm) && (!writearff)) || writeall {
 			trainW, testW := openfiles(trainfn, testfn)
-			data.WriteCases(testW, foldis[i])
-			data.WriteCases(trainW, trainis)
+			writefold(trainW, testW, trainis, foldis[i], data.WriteCases)
 		}
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			writefold(trainW, testW, trainis, foldis[i], func(w io.Writer, cases []int) error {
+				return CloudForest.WriteLibSvmCases(encoded, cases, *targetname, w)
+			})
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 4c2a9d3904a909aa9756453a68267329d3b96c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 25/71] fix: load nan as a missing value of numerical features

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..41847ec 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From c845fda392fe8473af569b557364f60256ae4b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 26/71] fix: keep the missing value flag when copying numerical
 features

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 41847ec..96ef4d9 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -644,7 +644,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
-- 
2.43.0


From 0b20690b2c0ae33ecb6fdddcd940b65336ad2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 27/71] fix: don't put missing values into categorical features
 as a category

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..1d2db96 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From b32e1534da5b435d1df03c9578522c378b0c64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 28/71] fix: don't share the missing values of encoded features
 with their source

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1d2db96..4e965af 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool(nil), f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From c193e4f835f7f7b78515a7c3f609193653a4b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 29/71] fix: don't impute the callers data when writing libsvm
 cases

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 8ecc9bf..647c85a 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -163,7 +163,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From ec2ccde1bdbf9a86b5a24dde3f0ef2a36611b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 30/71] fix: write libsvm folds for categorical targets instead
 of losing the target

---
 utils/nfold/main.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index de64d61..3c621a2 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -232,19 +232,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -274,7 +261,7 @@ func main() {
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
 			writefold(trainW, testW, trainis, foldis[i], func(w io.Writer, cases []int) error {
-				return CloudForest.WriteLibSvmCases(encoded, cases, *targetname, w)
+				return CloudForest.WriteLibSvmCases(data, cases, *targetname, w)
 			})
 		}
 
-- 
2.43.0


From 6f4ab9eafc1d5841e165e9aaf6c9be49af8406a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 31/71] fix: report read and format errors when loading data
 instead of a shorter table

---
 arff.go          | 21 ++++++++++++--
 featurematrix.go | 75 ++++++++++++++++++++++++++++++++++--------------
 libsvm.go        | 24 ++++++++++++----
 3 files changed, 90 insertions(+), 30 deletions(-)

diff --git a/arff.go b/arff.go
index 81aa7e9..8fc5524 100644
--- a/arff.go
+++ b/arff.go
@@ -12,7 +12,13 @@ import (
 //ParseARFF reads a file in weka'sarff format:
 //http://www.cs.waikato.ac.nz/ml/weka/arff.html
 //The relation is ignored and only catagorical and numerical variables are supported
+//It returns nil if reading fails before the end of the data.
 func ParseARFF(input io.Reader) *FeatureMatrix {
+	fm, _ := parseARFF(input)
+	return fm
+}
+
+func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	reader := bufio.NewReader(input)
 
@@ -26,7 +32,11 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		line, err := reader.ReadString('\n')
 		if err != nil {
 			log.Print("Error:", err)
-			return nil
+			if err == io.EOF {
+				//there has to be a data section
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
 		}
 		norm := strings.ToLower(line)
 
@@ -36,6 +46,9 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 		if strings.HasPrefix(norm, "@attribute") {
 			vals := strings.Fields(line)
+			if len(vals) < 3 {
+				return nil, fmt.Errorf("Can't parse arff attribute: %v", line)
+			}
 
 			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
 				data = append(data, &DenseNumFeature{
@@ -67,8 +80,10 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	csvdata.Comment = '%'
 	//csvdata.Comma = ','
 
-	fm.LoadCases(csvdata, false)
-	return fm
+	if err := fm.LoadCases(csvdata, false); err != nil {
+		return nil, err
+	}
+	return fm, nil
 
 }
 
diff --git a/featurematrix.go b/featurematrix.go
index 479a519..5f2c2d5 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -2,6 +2,7 @@ package CloudForest
 
 import (
 	"archive/zip"
+	"bufio"
 	"encoding/csv"
 	"fmt"
 	"io"
@@ -312,8 +313,9 @@ func (fm *FeatureMatrix) ImputeMissing() {
 //LoadCases will load data stored case by case from a cvs reader into a
 //feature matrix that has allready been filled with the coresponding empty
 //features. It is a lower level method generally called after inital setup to parse
-//a fm, arff, csv etc.
-func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
+//a fm, arff, csv etc. It stops at and returns any error encountered before the end
+//of the data.
+func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) error {
 	count := 0
 	for {
 		record, err := data.Read()
@@ -321,7 +323,7 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return err
 		}
 
 		caselabel := fmt.Sprintf("%v", count)
@@ -329,6 +331,10 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 			caselabel = record[0]
 			record = record[1:]
 		}
+		if len(record) != len(fm.Data) {
+			log.Print("Error:", csv.ErrFieldCount)
+			return csv.ErrFieldCount
+		}
 		fm.CaseLabels = append(fm.CaseLabels, caselabel)
 
 		for i, v := range record {
@@ -337,6 +343,7 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 
 		count++
 	}
+	return nil
 
 }
 
@@ -344,27 +351,33 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 //AFM format is a tsv with row and column headers where the row headers start with
 //N: indicating numerical, C: indicating categorical or B: indicating boolean
 //For this parser features without N: are assumed to be categorical
+//It returns nil if reading fails before the end of the data.
 func ParseAFM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseAFM(input)
+	return fm
+}
+
+func parseAFM(input io.Reader) (*FeatureMatrix, error) {
 	data := make([]Feature, 0, 100)
 	lookup := make(map[string]int, 0)
 	tsv := csv.NewReader(input)
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, make([]string, 0, 0)}, nil
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return nil, err
 	}
 	headers = headers[1:]
 
-	if len(headers[0]) > 1 {
+	if len(headers) > 0 && len(headers[0]) > 1 {
 		sniff := headers[0][:2]
 		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -385,8 +398,10 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			}
 
 			fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
-			fm.LoadCases(tsv, true)
-			return fm
+			if err = fm.LoadCases(tsv, true); err != nil {
+				return nil, err
+			}
+			return fm, nil
 		}
 	}
 
@@ -398,13 +413,13 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return nil, err
 		}
 		data = append(data, ParseFeature(record))
 		lookup[record[0]] = count
 		count++
 	}
-	return &FeatureMatrix{data, lookup, headers}
+	return &FeatureMatrix{data, lookup, headers}, nil
 }
 
 //LoadAFM loads a, possible zipped, FeatureMatrix specified by filename
@@ -412,29 +427,45 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 
 	r, err := zip.OpenReader(filename)
 	if err == nil {
+		defer r.Close()
+		if len(r.File) == 0 {
+			return nil, zip.ErrFormat
+		}
 		rc, err := r.File[0].Open()
-		if err == nil {
-			fm = ParseAFM(rc)
-			rc.Close()
-			return fm, err
+		if err != nil {
+			return nil, err
 		}
+		defer rc.Close()
+		return parseAFM(rc)
+	}
+	if err != zip.ErrFormat {
+		return nil, err
 	}
 
 	datafile, err := os.Open(filename)
 	if err != nil {
 		return
 	}
+	defer datafile.Close()
+
+	input := bufio.NewReader(datafile)
+	magic, err := input.Peek(4)
+	if err != nil && err != io.EOF {
+		return nil, err
+	}
+	if string(magic) == "PK\x03\x04" {
+		//a damaged archive shouldn't be parsed as text
+		return nil, zip.ErrFormat
+	}
 
 	switch {
 	case strings.HasSuffix(filename, ".arff"):
-		fm = ParseARFF(datafile)
+		fm, err = parseARFF(input)
 	case strings.HasSuffix(filename, ".libsvm"):
-		fm = ParseLibSVM(datafile)
+		fm, err = parseLibSVM(input)
 	default:
-		fm = ParseAFM(datafile)
+		fm, err = parseAFM(input)
 	}
-
-	datafile.Close()
 	return
 }
 
@@ -446,8 +477,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
diff --git a/libsvm.go b/libsvm.go
index 647c85a..87b8205 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -10,7 +10,13 @@ import (
 	"strings"
 )
 
+//ParseLibSVM parses libsvm data. It returns nil if reading fails before the end of the data.
 func ParseLibSVM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseLibSVM(input)
+	return fm
+}
+
+func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 	reader := bufio.NewReader(input)
 
 	data := make([]Feature, 0, 100)
@@ -20,17 +26,21 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	i := 0
 	ncases := 0
 	for {
-		ncases++
 
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		//the last line may lack a newline but it should still be parsed
+		if err == io.EOF && line == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 
 		vals := strings.Fields(line)
+		if len(vals) == 0 {
+			continue
+		}
+		ncases++
 
 		if i == 0 {
 			name := "0"
@@ -66,8 +76,12 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		for _, v := range vals[1:] {
 			parts := strings.Split(v, ":")
 			xi, err := strconv.Atoi(parts[0])
+			if err == nil && (xi < 0 || len(parts) != 2) {
+				err = strconv.ErrSyntax
+			}
 			if err != nil {
 				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
+				return nil, err
 			}
 			//pad out the data to include this feature
 			for xi >= len(data) {
@@ -92,7 +106,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 	fm := &FeatureMatrix{data, lookup, labels}
 
-	return fm
+	return fm, nil
 
 }
 
-- 
2.43.0


From ba30ab74fb73050df232e860af2e1da36172b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 32/71] fix: don't load files without any features as data

---
 featurematrix.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 5f2c2d5..037be08 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"bufio"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -436,7 +437,7 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 			return nil, err
 		}
 		defer rc.Close()
-		return parseAFM(rc)
+		return nonEmpty(parseAFM(rc))
 	}
 	if err != zip.ErrFormat {
 		return nil, err
@@ -460,13 +461,19 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 
 	switch {
 	case strings.HasSuffix(filename, ".arff"):
-		fm, err = parseARFF(input)
+		return nonEmpty(parseARFF(input))
 	case strings.HasSuffix(filename, ".libsvm"):
-		fm, err = parseLibSVM(input)
-	default:
-		fm, err = parseAFM(input)
+		return nonEmpty(parseLibSVM(input))
 	}
-	return
+	return nonEmpty(parseAFM(input))
+}
+
+//nonEmpty replaces a matrix without any features with an error.
+func nonEmpty(fm *FeatureMatrix, err error) (*FeatureMatrix, error) {
+	if err == nil && len(fm.Data) == 0 {
+		return nil, errors.New("no features found in data file")
+	}
+	return fm, err
 }
 
 //ParseFeature parses a Feature from an array of strings and a capacity
-- 
2.43.0


From 4b2793d19ab38b408f30fde60e2d7c66de08a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 33/71] fix: allow sorting more cases than the allocated number
 of samples

---
 sortablefeature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sortablefeature.go b/sortablefeature.go
index 5ec1f32..b1b8c68 100644
--- a/sortablefeature.go
+++ b/sortablefeature.go
@@ -55,6 +55,10 @@ func (sf *SortableFeature) Swap(i int, j int) {
 //Load loads the values of the cases into a cache friendly array.
 func (sf *SortableFeature) Load(vals *[]float64, cases *[]int) {
 	sf.Cases = *cases
+	if len(sf.Vals) < len(*cases) {
+		//there can be more oob cases then the in bag cases vals was allocated for
+		sf.Vals = make([]float64, len(*cases))
+	}
 	sfvals := sf.Vals
 	vs := *vals
 	for i, p := range *cases {
-- 
2.43.0


From b5c6b6e95dd9f7a7aea176041ad47e0dc1b265f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 34/71] fix: let the adaptive boosting targets satisfy
 BoostingTarget again

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 numadaboostingtarget.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From a3fab200beb8001364600f527e99dcc7381aedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 35/71] fix: don't score cases without votes as if zero had
 been predicted for them

---
 numballotbox.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..64dcc2b 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -2,7 +2,6 @@ package CloudForest
 
 import (
 	"fmt"
-	"log"
 	"math"
 	"strconv"
 )
@@ -63,8 +62,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, count := bb.box[i].Read()
+		if !feature.IsMissing(i) && count > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
@@ -72,8 +71,9 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 			c += 1
 		}
 	}
-	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+	if c == 0 {
+		//no case can be scored
+		return math.NaN()
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From 6c63832bc06f71866baf557b01c4031fcd000200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 36/71] fix: don't turn running means into NaN when the first
 value has no weight

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..01ca310 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,7 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 2cb8c28e18857d7bf6e42a2c6f1f715d71e54d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 37/71] fix: don't let the mode of numerical features depend on
 map order

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 96ef4d9..1b63b34 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -539,7 +539,7 @@ func (f *DenseNumFeature) Mode(cases *[]int) (m float64) {
 	}
 	max := 0
 	for k, v := range counts {
-		if v > max {
+		if v > max || (v == max && k < m) {
 			m = k
 			max = v
 		}
-- 
2.43.0


From 511533b8ac2612439ceaed7b4a6365b9922bb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 38/71] fix: leave cases without a known target out of gradient
 boosting regression

---
 gradboosttarget.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..feb1fad 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -16,17 +16,24 @@ type GradBoostTarget struct {
 func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget) {
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
+	//Cases for which the target isn't known are ignored and stay missing.
 	sum := 0.0
+	n := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			n++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(n)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From 06e35ecb1b9bd9bf9eb817e64b00330e889f3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 39/71] fix: leave cases without a known target out of gradient
 boosting classification

---
 gradboostclasstarget.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..8acc140 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -38,8 +38,12 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 
 	actual := f.EncodeToNum()[0].(*DenseNumFeature)
 	pred := actual.Copy().(*DenseNumFeature)
-	// Make sure the encoding has the positive class as 1
+	// Make sure the encoding has the positive class as 1, cases without a known
+	// class stay missing and are ignored
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +55,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	n := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			n++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (n - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if res.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -110,6 +121,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
-- 
2.43.0


From eff06483d88c612a0939c7920520fbda13f207c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 40/71] fix: don't panic when a category is predicted that the
 test data lacks

---
 growforest/growforest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 04ac04c..da302f7 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -973,7 +973,11 @@ func main() {
 				if pred == "NA" {
 					nas++
 				} else {
-					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+					predi, ok := testtarget.(*CloudForest.DenseCatFeature).Map[pred]
+					if !ok {
+						//the test data has no cases of the predicted category
+						continue
+					}
 					predtotals[predi]++
 					if pred == testtarget.GetStr(i) {
 						correct++
-- 
2.43.0


From 1ef3a8525f9faedc7afea7881e8a80fa916591d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 41/71] fix: ignore cases without a known class in the
 self-test counts

---
 growforest/growforest.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index da302f7..65c1466 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -965,8 +965,12 @@ func main() {
 
 			correct := 0
 			nas := 0
-			length := testtarget.Length()
-			for i := 0; i < length; i++ {
+			length := 0
+			for i := 0; i < testtarget.Length(); i++ {
+				if testtarget.IsMissing(i) {
+					continue
+				}
+				length++
 				truei := testtarget.(*CloudForest.DenseCatFeature).Geti(i)
 				truetotals[truei]++
 				pred := bb.Tally(i)
-- 
2.43.0


From 646b8a179b55eaf0d51dc386ad67d61dfbaa7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 42/71] fix: grow the categorical split cache when out of bag
 cases outnumber the bag

---
 densecatfeature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 4e965af..eafd552 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -619,6 +619,10 @@ func (f *DenseCatFeature) BestCatSplit(target Target,
 	// Left := allocs.Left
 	// Right := allocs.Right
 
+	//out of bag cases (vet with evaloob) can outnumber the cases in the bag
+	if len(allocs.CatVals) < len(cs) {
+		allocs.CatVals = make([]int, len(cs))
+	}
 	cached := allocs.CatVals
 
 	//get the needed values on the CPU cache
-- 
2.43.0


From 63ec6a699b725487c0a466296e5fd28f5cf3e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 43/71] fix: don't add categories to the shared target while
 trees grow in parallel

---
 dentropytarget.go  | 5 ++---
 hdistancetarget.go | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..87bf077 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -84,7 +84,6 @@ func (target *DEntropyTarget) ImpFromCounts(total int, counts *[]int) (e float64
 
 func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	prob_true := 0.0
-	t := target.CatToNum("True")
 	weightedvoted := true
 	if weightedvoted {
 		count := 0.0
@@ -92,7 +91,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 		for _, i := range cases {
 			ti := target.Geti(i)
 			cost := target.Costs[ti]
-			if ti == t {
+			if target.NumToCat(ti) == "True" {
 				count += cost
 			}
 			total += cost
@@ -103,7 +102,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	} else {
 		count := 0
 		for _, i := range cases {
-			if target.Geti(i) == t {
+			if target.NumToCat(target.Geti(i)) == "True" {
 				count++
 			}
 
diff --git a/hdistancetarget.go b/hdistancetarget.go
index 2aff363..0beff64 100644
--- a/hdistancetarget.go
+++ b/hdistancetarget.go
@@ -65,11 +65,9 @@ func (target *HDistanceTarget) HDist(lcounts *[]int, rcounts *[]int) (d float64)
 func (target *HDistanceTarget) FindPredicted(cases []int) (pred string) {
 	// TODO(ryan): lapalcian smoothing?
 	prob_true := 0.0
-	t := target.CatToNum(target.Pos_class)
-
 	count := 0
 	for _, i := range cases {
-		if target.Geti(i) == t {
+		if target.NumToCat(target.Geti(i)) == target.Pos_class {
 			count++
 		}
 
-- 
2.43.0


From 63d3b0084f5e21c894a997bf495fa0437987eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 44/71] fix: growforest -noseed isn't repeatable as go seeds
 randomly by default

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 65c1466..4fc2ef4 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -198,6 +198,9 @@ func main() {
 
 	if !noseed {
 		rand.Seed(time.Now().UTC().UnixNano())
+	} else {
+		//newer versions of go seed randomly unless told otherwise
+		rand.Seed(1)
 	}
 
 	if testfm != "" {
-- 
2.43.0


From 1003f6c5a1a11bea47c944892b5a3679d69f6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 45/71] fix: report a forest file cut off inside a header line

---
 forestreader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index 03f4968..307a608 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -59,6 +59,10 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			forest.Trees = append(forest.Trees, t)
 		}
 		if e == io.EOF {
+			if forest == nil {
+				//neither a forest nor a tree was found
+				return nil, io.ErrUnexpectedEOF
+			}
 			return forest, nil
 		}
 		if e != nil {
@@ -107,6 +111,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
+		//only the last node of a tree can be whole without a newline
+		if !strings.HasSuffix(line, "\n") && !strings.HasPrefix(line, "NODE") && strings.TrimSpace(line) != "" {
+			cut = true
+		}
 		switch {
 		case strings.HasPrefix(line, "FOREST"):
 			forest = new(Forest)
-- 
2.43.0


From dd09683b8e5297b245be6bcbb2ed5dfbe9b09a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 46/71] fix: keep spaces after commas in names and categories
 read from a forest

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 307a608..8147ba7 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -197,7 +197,7 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	insidequotes := make([]string, 0)
 	terms := strings.Split(strings.TrimSpace(line), ",")
 	for _, term := range terms {
-		term = strings.TrimSpace(term)
+		//spaces are trimmed from whole clauses below, they may be part of a value with commas
 		quotes := strings.Count(term, "\"")
 		//if quotes have been opend join terms
 		if quotes == 1 || len(insidequotes) > 0 {
-- 
2.43.0


From 3dc2ef3c39fd4356067f8fe1287f24e642702b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 47/71] fix: don't predict NaN for leaves gradient boosting
 classification already predicts with certainty

---
 gradboostclasstarget.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 8acc140..9d63667 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -108,6 +108,11 @@ func (f *GradBoostClassTarget) Predicted(cases *[]int) float64 {
 
 	}
 
+	if math.Abs(denom) < 1e-150 {
+		//all of the cases are already predicted with certainty and there is no newton step
+		return 0.0
+	}
+
 	return num / denom // 1.0 / (1.0 + math.Exp(-1*meanlogodds))
 }
 
-- 
2.43.0


From b2c9e38a7263c0fa165631016340c1063d481f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 48/71] fix: don't take the header of the next forest for a
 part of an empty one

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 8147ba7..3c7b79e 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -97,7 +97,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 	for {
 		peek, err = fr.br.Peek(1)
 		//If their is no next line or it starts a new Tree or Forest return
-		if err != nil || (intree && (peek[0] == 'T' || peek[0] == 'F')) {
+		if err != nil || (intree && peek[0] == 'T') || ((intree || forest != nil) && peek[0] == 'F') {
 			if (err == nil || err == io.EOF) && (cut || (intree && !tree.complete())) {
 				//the stream ended or went on before all nodes of the tree were read
 				err = io.ErrUnexpectedEOF
-- 
2.43.0


From 5c92477b48a12fb2ce3c85ec9d326865bde3ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 49/71] fix: quote attribute names in ARFF files and read
 quoted ones

---
 arff.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/arff.go b/arff.go
index 8fc5524..4859b48 100644
--- a/arff.go
+++ b/arff.go
@@ -18,6 +18,51 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	return fm
 }
 
+//arffEscaper escapes the characters that can't stand for themselves in a quoted name.
+var arffEscaper = strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r", "\t", "\\t")
+
+//arffName returns name quoted if it contains spaces or other special characters.
+func arffName(name string) string {
+	if strings.ContainsAny(name, " \t\r\n,{}%'\"\\") {
+		return "'" + arffEscaper.Replace(name) + "'"
+	}
+	return name
+}
+
+//parseArffAttribute returns the name and the lower case type from an attribute
+//declaration. The name may be quoted.
+func parseArffAttribute(line string) (name string, kind string, err error) {
+	vals := strings.Fields(line)
+	if len(vals) >= 3 && vals[1][0] != '\'' && vals[1][0] != '"' {
+		return vals[1], strings.ToLower(vals[2]), nil
+	}
+	decl := strings.TrimSpace(line[len("@attribute"):])
+	unquoted := make([]byte, 0, len(decl))
+	for i := 1; i < len(decl); i++ {
+		c := decl[i]
+		if c == decl[0] {
+			if vals = strings.Fields(decl[i+1:]); len(vals) == 0 {
+				break
+			}
+			return string(unquoted), strings.ToLower(vals[0]), nil
+		}
+		if c == '\\' && i+1 < len(decl) {
+			i++
+			c = decl[i]
+			switch c {
+			case 'n':
+				c = '\n'
+			case 'r':
+				c = '\r'
+			case 't':
+				c = '\t'
+			}
+		}
+		unquoted = append(unquoted, c)
+	}
+	return "", "", fmt.Errorf("Can't parse arff attribute: %v", line)
+}
+
 func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	reader := bufio.NewReader(input)
@@ -45,16 +90,16 @@ func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 		}
 
 		if strings.HasPrefix(norm, "@attribute") {
-			vals := strings.Fields(line)
-			if len(vals) < 3 {
-				return nil, fmt.Errorf("Can't parse arff attribute: %v", line)
+			name, kind, err := parseArffAttribute(line)
+			if err != nil {
+				return nil, err
 			}
 
-			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
+			if kind == "numeric" || kind == "real" {
 				data = append(data, &DenseNumFeature{
 					make([]float64, 0, 0),
 					make([]bool, 0, 0),
-					vals[1],
+					name,
 					false})
 			} else {
 				data = append(data, &DenseCatFeature{
@@ -62,13 +107,13 @@ func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 						make([]string, 0, 0)},
 					make([]int, 0, 0),
 					make([]bool, 0, 0),
-					vals[1],
+					name,
 					false,
 					false})
 			}
 
-			lookup[vals[1]] = i
-			//labels = append(labels, vals[1])
+			lookup[name] = i
+			//labels = append(labels, name)
 			i++
 		}
 
@@ -106,7 +151,7 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		_, err = fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		_, err = fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", arffName(f.GetName()), ftype)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 813829bfbb92412502952dce86f1009cc7793ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 50/71] fix: quote labels and values that need it when writing
 cases

---
 featurematrix.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 037be08..4b87a7b 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -108,12 +108,16 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 	vals := make([]string, 0, len(cases)+1)
 
+	//quotes the labels and values that need it to be read back
+	tsv := csv.NewWriter(w)
+	tsv.Comma = '\t'
+
 	//print header
 	vals = append(vals, ".")
 	for i := 0; i < len(cases); i++ {
 		vals = append(vals, fm.CaseLabels[cases[i]])
 	}
-	_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+	err = tsv.Write(vals)
 	if err != nil {
 		return
 	}
@@ -125,14 +129,15 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 			vals = append(vals, fm.Data[i].GetStr(cases[j]))
 		}
 
-		_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+		err = tsv.Write(vals)
 		if err != nil {
 			return
 		}
 
 	}
 
-	return
+	tsv.Flush()
+	return tsv.Error()
 
 }
 
-- 
2.43.0


From b664a46387f1c4b24ff0364a0d0c4d2fa06e62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 51/71] fix: leave cases with a missing target out of
 categorical adaptive boosting

---
 adaboosttarget.go | 17 +++++++++++++++++
 adacosttarget.go  |  1 +
 2 files changed, 18 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..6bd0bb9 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -110,11 +110,28 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 }
 
+//knownCases returns leaves without the cases for which the target is missing. Those
+//can't be misclassified and don't have a say in the class of a leaf.
+func knownCases(f Feature, leaves *[][]int) *[][]int {
+	known := make([][]int, 0, len(*leaves))
+	for _, cases := range *leaves {
+		k := make([]int, 0, len(cases))
+		for _, c := range cases {
+			if !f.IsMissing(c) {
+				k = append(k, c)
+			}
+		}
+		known = append(known, k)
+	}
+	return &known
+}
+
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
+	leaves = knownCases(t, leaves)
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
 	}
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..723385b 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -131,6 +131,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
+	leaves = knownCases(t, leaves)
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
 	}
-- 
2.43.0


From 30713d655857db02514917156f476f24913b3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 52/71] fix: don't turn case weights into NaN when boosting a
 perfect tree

---
 adaboosttarget.go       | 4 ++++
 adacosttarget.go        | 4 ++++
 numadaboostingtarget.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 6bd0bb9..9166bae 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -139,6 +139,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//there is nothing left to boost, reweighting would divide by zero
+		return weight
+	}
 
 	for _, cases := range *leaves {
 
diff --git a/adacosttarget.go b/adacosttarget.go
index 723385b..ba4c821 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -139,6 +139,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//there is nothing left to boost, reweighting would divide by zero
+		return weight
+	}
 
 	for _, cases := range *leaves {
 		t.CountPerCat(&cases, &counter)
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..fccc5d2 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -93,6 +93,10 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 	}
 
 	weight = math.Log(norm / imp)
+	if imp == 0 || math.IsInf(weight, 1) {
+		//there is nothing left to boost, reweighting would divide by zero
+		return math.Inf(1)
+	}
 
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
-- 
2.43.0


From ca8e7b927de63899ed7424627458d7010913c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 53/71] fix: keep weights finite when boosting numerical
 targets of a large scale

---
 numadaboostingtarget.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index fccc5d2..38ce2c6 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -98,15 +98,27 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		return math.Inf(1)
 	}
 
+	//gains are taken relative to the largest as the weights are normalized below and
+	//math.Exp would overflow for targets of a large scale
+	gains := make([]float64, len(t.Weights))
+	max := 0.0
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
-				t.Weights[c] = t.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))
+				gains[c] = weight * (t.Norm(c, m) - imp)
+				if t.Weights[c] > 0 && gains[c] > max {
+					max = gains[c]
+				}
 			}
 
 		}
 	}
+	for c := range t.Weights {
+		if t.Weights[c] > 0 {
+			t.Weights[c] = t.Weights[c] * math.Exp(gains[c]-max)
+		}
+	}
 
 	normfactor := 0.0
 	for _, v := range t.Weights {
-- 
2.43.0


From 2b8ca6dd189f3a62fa7ca07cb1fe0f5a3d2bd3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 54/71] fix: export only the trees of the final forest to
 scikit-learn

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4fc2ef4..7cb3ef6 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -730,7 +730,7 @@ func main() {
 						}
 					}
 
-					if scikitforest != "" {
+					if scikitforest != "" && foresti == nForest-1 {
 						skt := CloudForest.NewScikitTree(nFeatures)
 						CloudForest.BuildScikitTree(0, tree.Root, skt)
 						scikikittrees = append(scikikittrees, *skt)
-- 
2.43.0


From d46250c5d687c5863ed5287d5cb21f55d8234c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 55/71] fix: name the target in the trees of GrowRandomForest

---
 forrest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forrest.go b/forrest.go
index fd6aab9..1965d53 100644
--- a/forrest.go
+++ b/forrest.go
@@ -58,6 +58,7 @@ func GrowRandomForest(fm *FeatureMatrix,
 		cases := SampleWithReplacment(nSamples, nCases)
 
 		f.Trees = append(f.Trees, NewTree())
+		f.Trees[i].Target = f.Target
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
-- 
2.43.0


From 24800afcb901c8a6711d5f300bb58bfd4212b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 56/71] fix: split numerical features right below the first
 value on the right

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 1b63b34..a6639f3 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -355,7 +355,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
-- 
2.43.0


From 5573ceda4a133c244138944ceee65973d9eb7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 57/71] fix: keep numerical thresholds between the values they
 separate

---
 densenumfeature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index a6639f3..99d87f8 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -358,6 +358,10 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					//the midpoint of neighboring or huge values can't be represented
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From 8b808081efabdcfae70e2879d85e9cc680bc1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 58/71] fix: don't take features for constant in jungles that
 aren't

---
 tree.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tree.go b/tree.go
index b3ca7fe..8c1d69e 100644
--- a/tree.go
+++ b/tree.go
@@ -3,12 +3,11 @@ package CloudForest
 import ()
 
 type nodeAndCases struct {
-	n          *Node
-	start      int
-	end        int
-	nconstants int
-	parent     *Node
-	dead       bool
+	n      *Node
+	start  int
+	end    int
+	parent *Node
+	dead   bool
 }
 
 //Tree represents a single decision tree.
@@ -202,8 +201,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 	//var innercanidates []int
 	var impDec float64
-	nodes := []nodeAndCases{nodeAndCases{t.Root, 0, len(cases), 0, nil, false}}
-	var depth, nconstants, start, end, fi, firstThisLevel int
+	nodes := []nodeAndCases{nodeAndCases{t.Root, 0, len(cases), nil, false}}
+	var depth, start, end, fi, firstThisLevel int
 	var split interface{}
 
 	innercases := cases[0:len(cases)]
@@ -223,11 +222,12 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			start = node.start
 			end = node.end
 			innercases = cases[node.start:node.end]
-			nconstants = node.nconstants
 
 			if (depth < maxDepth || maxDepth <= 0) && (2*leafSize) <= len(innercases) {
 
-				fi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)
+				//the candidates known to be constant in the parent may have been moved while
+				//the nodes in between were split so start with none
+				fi, split, impDec, _ = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, 0)
 
 				if split != nil {
 					if importance != nil {
@@ -248,16 +248,16 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 					//Left
 					n.Left = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, nconstants, n, false})
+					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, n, false})
 
 					//Right
 					n.Right = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
+					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, n, false})
 
 					n.Missing = nil
 					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, n, false})
 					}
 
 					continue
-- 
2.43.0


From 826a687aaf16dd5ce708ea88fbcaa9708b7c2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 59/71] fix: don't recombine the nodes of jungles where that
 isn't a gain

---
 tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 8c1d69e..3f06fcb 100644
--- a/tree.go
+++ b/tree.go
@@ -306,7 +306,12 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 						impDec = target.SplitImpurity(&innercases, &innercases2, nil, allocs)
 
 						innercases = cases[nodei.start:nodej.end]
-						impDec -= target.Impurity(&innercases, allocs.Counter)
+						imp := target.Impurity(&innercases, allocs.Counter)
+						if imp < 0 {
+							//SplitImpurity is what would be lost by combining
+							continue
+						}
+						impDec -= imp
 
 						if impDec > maxImpDec {
 							maxImpDec = impDec
-- 
2.43.0


From 2c10c674fc854fa69b7f25e96cc1f71566f0eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 60/71] fix: recombined nodes of jungles get the cases of both

---
 tree.go | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/tree.go b/tree.go
index 3f06fcb..2f15346 100644
--- a/tree.go
+++ b/tree.go
@@ -3,11 +3,23 @@ package CloudForest
 import ()
 
 type nodeAndCases struct {
-	n      *Node
-	start  int
-	end    int
-	parent *Node
-	dead   bool
+	n       *Node
+	start   int
+	end     int
+	parents []*Node
+	dead    bool
+}
+
+//siblings tells if two nodes have a parent in common.
+func (a *nodeAndCases) siblings(b *nodeAndCases) bool {
+	for _, pa := range a.parents {
+		for _, pb := range b.parents {
+			if pa == pb {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 //Tree represents a single decision tree.
@@ -248,16 +260,16 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 					//Left
 					n.Left = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, n, false})
+					nodes = append(nodes, nodeAndCases{n.Left, start, start + li, []*Node{n}, false})
 
 					//Right
 					n.Right = new(Node)
-					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, n, false})
+					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, []*Node{n}, false})
 
 					n.Missing = nil
 					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, n, false})
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, []*Node{n}, false})
 					}
 
 					continue
@@ -291,14 +303,14 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 				}
 				var maxImpDec, impDec float64
 				combine := -1
-				nodei := nodes[i]
+				nodei := &nodes[i]
 				for j := lastThisLevel; j < len(nodes); j++ {
 					if nodes[j].dead {
 						continue
 					}
 
-					nodej := nodes[j]
-					if nodei.end == nodej.start && nodei.parent != nodej.parent {
+					nodej := &nodes[j]
+					if nodei.end == nodej.start && !nodei.siblings(nodej) {
 						//should we consider other harder noncontigeous combinations?
 						//or is theis enough of a random search to be fine?
 						innercases = cases[nodei.start:nodei.end]
@@ -326,14 +338,16 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes[combine].dead = true
 					nj := nodes[combine]
 					nodei.end = nj.end
-					parent := nj.parent
-					switch nj.n {
-					case parent.Left:
-						parent.Left = nodei.n
-					case parent.Right:
-						parent.Right = nodei.n
-					case parent.Missing:
-						parent.Missing = nodei.n
+					nodei.parents = append(nodei.parents, nj.parents...)
+					for _, parent := range nj.parents {
+						switch nj.n {
+						case parent.Left:
+							parent.Left = nodei.n
+						case parent.Right:
+							parent.Right = nodei.n
+						case parent.Missing:
+							parent.Missing = nodei.n
+						}
 					}
 
 				}
-- 
2.43.0


From bfeb9b28b6bf1b16fdbe929076ce9a215a484589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 61/71] fix: number the saved trees whether or not progress is
 reported

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 7cb3ef6..3910e56 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -745,8 +745,8 @@ func main() {
 							tree.Target = *targetname
 						}
 					}
+					treesFinished++
 					if progress {
-						treesFinished++
 						fmt.Printf("Model oob error after tree %v : %v\n", treesFinished, oobVotes.TallyError(unboostedTarget))
 					}
 					if treesStarted < nTrees {
-- 
2.43.0


From e982a0735f917138e6bdebd27a3ca2c5f795218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 62/71] fix: don't evaluate splits on out of bag cases without
 a known target

---
 growforest/growforest.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 3910e56..b8fbd07 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -619,6 +619,7 @@ func main() {
 				tree.Target = *targetname
 				cases := make([]int, 0, nNonMissing)
 				oobcases := make([]int, 0, nNonMissing)
+				evalcases := make([]int, 0, nNonMissing)
 
 				if nobag {
 					for i := 0; i < targetf.Length(); i++ {
@@ -675,18 +676,23 @@ func main() {
 							ibcases[v] = true
 						}
 						oobcases = oobcases[0:0]
+						evalcases = evalcases[0:0]
 						for i, v := range ibcases {
 							if !v {
 								oobcases = append(oobcases, i)
+								//splits can only be evaluated where the target is known
+								if !targetf.IsMissing(i) {
+									evalcases = append(evalcases, i)
+								}
 							}
 						}
 					}
 
 					if jungle {
-						tree.GrowJungle(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.GrowJungle(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 
 					} else {
-						tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.Grow(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-- 
2.43.0


From 41a01136eee0b010f471b50c38fbf3057ca016d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 63/71] fix: don't count a blacklisted target twice

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index b8fbd07..1871247 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -320,6 +320,11 @@ func main() {
 		}
 	}
 
+	//the target is left out of the features anyway
+	if blacklistis[targeti] {
+		blacklisted--
+	}
+
 	nFeatures := len(data.Data) - blacklisted - 1
 	fmt.Printf("Non Target Features : %v\n", nFeatures)
 
-- 
2.43.0


From 4e79a06d1148ffc94dbe58db494286687f04a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 64/71] fix: keep features of up to two categories when one hot
 encoding

---
 densecatfeature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index eafd552..be457f9 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -77,6 +77,9 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		//features of up to two categories are kept as they are
+		fs = []Feature{f}
 	}
 	return
 }
-- 
2.43.0


From 4946ce962e27dbc1074286183ebb672d01daa400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 65/71] fix: write the one hot encoded features into the folds

---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index 3c621a2..fa8ce94 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -164,7 +164,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From 9a19b622fd237e3c91bae20a615d22ec3ca1fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 66/71] fix: number the stripped categories as they are in the
 feature

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 4b87a7b..6e1d753 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -53,7 +53,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From 40078c0044ea9f2947e55a546de96ac52ee0ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 67/71] fix: consider the split that leaves exactly leafSize
 cases on the right

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 99d87f8..15ed36d 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From 2bdcfe29ddd3476e8778d92549d9459a3082e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 68/71] fix: use the disutilities in the impurity of whole sets
 of cases

---
 dentropytarget.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index 87bf077..85abda1 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -112,22 +112,12 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	return fmt.Sprintf("%v", prob_true)
 }
 
-//DEntropyTarget.Impurity implements categorical entropy as sum(pj*log2(pj)) where pj
-//is the number of cases with the j'th category over the total number of cases.
+//DEntropyTarget.Impurity implements categorical disutility entropy as sum(rj*pj*log(pj)) where pj
+//is the number of cases with the j'th category over the total number of cases and rj its cost.
 func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64) {
 
-	total := len(*cases)
 	target.CountPerCat(cases, counts)
 
-	p := 0.0
-	for _, i := range *counts {
-		if i > 0 {
-			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
-		}
-
-	}
-
-	return
+	return target.ImpFromCounts(len(*cases), counts)
 
 }
-- 
2.43.0


From 8c0b0cf5f18768b3888ae7b42e1529fdaef4d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 69/71] fix: measure the span of numerical features

The first value was never marked as seen, so every span was zero: density
estimates of tables with numerical features were infinite and their trees a
single leaf, and transduction ignored numerical features.
---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 15ed36d..d52c0c4 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -564,6 +564,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From 7696c6854b52ae88dd70ea16feffeefd283814d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:48 +0000
Subject: [PATCH 70/71] fix: evaluate scored splits out of bag

The Hellinger and gradient boosting targets score splits directly and have no
impurity to subtract a score from, so no split was ever taken with -evaloob.
---
 featurematrix.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 6e1d753..d7a437f 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -232,7 +232,12 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 		if evaloob && inerImp > impurityDecrease {
 			//spliter := f.DecodeSplit(split)
 			l, r, m := f.Split(split, *oob) //spliter.Split(fm, *oob)
-			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			if parentImp < 0 {
+				//the target scores splits directly
+				inerImp = target.SplitImpurity(&l, &r, &m, allocs)
+			} else {
+				inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			}
 		}
 
 		if vet && inerImp > impurityDecrease {
-- 
2.43.0


From 7c2ef0df35040ad6eb316193d60b7285acbef35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:51 +0000
Subject: [PATCH 71/71] fix: score gradient boosting splits with missing values
 consistently

Gradient boosting has an impurity of -1 except for sets of equal residuals, so
a feature with one missing value (or equal residuals where it is missing) was
penalised by the share of these cases, whatever the scale of the target.
---
 densecatfeature.go | 5 +++++
 densenumfeature.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index be457f9..1749fc0 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -223,6 +223,11 @@ func (f *DenseCatFeature) BestSplit(target Target,
 	}
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+		if parentImp < 0 {
+			//the target scores splits directly
+			impurityDecrease *= float64(nonmissing) / float64(total)
+			return
+		}
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
diff --git a/densenumfeature.go b/densenumfeature.go
index d52c0c4..92a3ae8 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -264,6 +264,11 @@ func (f *DenseNumFeature) BestSplit(target Target,
 	codedSplit, impurityDecrease, constant = f.BestNumSplit(target, tosplit, nonmissingparentImp, leafSize, randomSplit, allocs)
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+		if parentImp < 0 {
+			//the target scores splits directly
+			impurityDecrease *= float64(nonmissing) / float64(total)
+			return
+		}
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
-- 
2.43.0

