#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("P01","A forest-growing run ends with exactly the requested trees, each whole",
 "For any number of cores, any requested number of trees and any interleaving of the workers, a bagged forest-growing run terminates normally and its saved forest holds exactly the requested number of trees. Each saved tree is written contiguously and completely (every split node has its children, every leaf its prediction), never mixed with the lines of another tree, and is one of the trees the run grew, each grown tree being saved exactly once.",
 ["schedules","configurations"],"every interleaving of nCores workers at statement granularity, nCores 1..8, nTrees 1..24 (fewer, equal and more trees than cores), with and without progress/self-test/oob/importance/ACE recording; the tool, and library callers growing forests at the same time from one table",
 "The existing tests never run the command line tool, let alone with several workers, and grow one forest at a time; a lost wake-up, a missing lock around the writer or a miscounted shared tree counter only shows under particular interleavings and core/tree ratios.",
 ["growforest/growforest.go","forrest.go","forestwriter.go","tree.go","node.go"],
 [("per-core growth workers, shared started-tree counter and wait group","growforest/growforest.go main, grow closure"),("recordingTree mutex around tree output","growforest/growforest.go"),("tree serialisation","forestwriter.go WriteTree")],
 [("treesStarted","trees handed to workers so far","growforest/growforest.go")],["the saved .sf file","exit status"])

p("P02","Parallel growth never changes what a tree learns and is free of data races",
 "Given its bag of cases and its random draws, a tree grown next to other workers, or after other trees while reusing their scratch space, is the same tree it would be if grown alone on the same data with fresh scratch space. No interleaving makes two workers touch the same memory without synchronisation when at least one of them writes.",
 ["schedules","inputs"],"every interleaving of the growth workers, every random stream, all target kinds (classification, regression, entropy, l1, ordinal, weighted, cost, density, boosting on one core) and growth options (vet, evaloob, extra, force, splitmissing, nobag, balance); the tool, and library callers sharing one table",
 "Sharing bugs (a scratch slice shared by two workers, a stale counter left by the previous tree, an unlocked map) depend on which worker is preempted where; sequential unit tests with fresh allocations cannot reach them.",
 ["tree.go","featurematrix.go","splitallocations.go","densecatfeature.go","densenumfeature.go","growforest/growforest.go","catballotbox.go","utils.go"],
 [("per-worker split scratch space","splitallocations.go BestSplitAllocs"),("in-place candidate and case permutation","featurematrix.go BestSplitter; densenumfeature.go SplitPoints"),("per-worker random source","splitallocations.go Rnd")])

p("P03","Every grown tree respects its growth limits and describes its own bag",
 "For every random stream and schedule, each tree is grown from a bag of the requested size holding only cases whose target is known, is offered exactly the features that are not excluded, with the number of candidates per split (a count, a portion of them or the square root of their number) and the other settings asked for, never splits on the target, on an excluded feature or on a disabled contrast, never exceeds the maximum depth, and never leaves fewer than the minimum number of bag cases on either side of a split. Each leaf that bag cases reach predicts the mode (classification) or the mean (regression) of the target over exactly the bag cases that reach it (the weighted mode, mode or share of the positive class for the kinds of targets that predict those), where reaching is decided by the saved split rules. The same holds for jungles, where a node several branches lead to has the cases of all of them.",
 ["inputs","schedules"],"every bag and candidate draw, any mix of numerical and categorical features with missing values, numerical values of any scale including huge, neighbouring and nearly equal ones, leafSize/maxDepth/mTry/nSamples/blacklist/blockRE/includeRE/nobag/balance/extra/force/vet/evaloob/splitmissing settings, growth of trees and of jungles, by the tool and by library callers",
 "Tests grow a handful of trees on two data sets with default options and look only at the error rate; a limit violated on rare draws or a leaf prediction taken from stale cases is invisible to them.",
 ["tree.go","node.go","featurematrix.go","densecatfeature.go","densenumfeature.go","growforest/growforest.go","sampeling.go"],
 [("growth recursion and leaf creation","tree.go Grow"),("bag drawing and exclusion lists","growforest/growforest.go"),("in-place partition of the bag","densenumfeature.go/densecatfeature.go SplitPoints")])

p("P04","Out-of-bag results equal a recount from the bags and the saved forest",
 "In every run that reports out-of-bag results, each tree casts exactly one vote (its saved prediction) for every case that was not in its own bag and that its rules route to a leaf, and no vote for any other case, whatever the interleaving of the workers. The reported out-of-bag error, the running error and the out-of-bag prediction file equal the recount of exactly these votes.",
 ["schedules","inputs"],"every interleaving, bag and data set with missing values; classification and regression, with and without third (missing) branches, repeated forests (ACE) where only the last forest votes",
 "The out-of-bag path is not tested at all; votes lost by a reused tree, a stale out-of-bag list or an unsynchronised category table appear only for certain growth histories or interleavings.",
 ["growforest/growforest.go","tree.go","catballotbox.go","numballotbox.go","catmap.go"],
 [("out-of-bag list per tree","growforest/growforest.go"),("voting","tree.go VoteCases"),("ballot boxes","catballotbox.go, numballotbox.go")],None,["stdout error lines","-oobpreds file"])

p("P05","Importance scores account for every split exactly once",
 "For any number of cores and any interleaving, the importance report gives for each feature a use count equal to the number of splits on it over all grown trees, a mean impurity decrease equal to the average decrease of those splits, the number of trees that use it and the mean over those trees of the depth at which it is first used. No split is lost, duplicated or credited to another feature.",
 ["schedules","inputs"],"every interleaving of the workers and every random stream, with contrasts, classification and regression, nCores 1..8",
 "The counters are shared by all workers and updated from inside the growth recursion; a lost or doubled update needs two workers inside it at once, and the tests only check that scores are vaguely ordered.",
 ["tree.go","utils.go","growforest/growforest.go","featurematrix.go"],
 [("shared running means","utils.go RunningMean"),("score recording","tree.go Grow importance/depthUsed"),("report","growforest/growforest.go importance file")],None,["-importance file"])

p("P06","The self-test reports the error of exactly the forest that was saved",
 "When a growing run also tests its forest (on the training data or on a separate file), the reported error and classification counts are those obtained by letting every tree of the saved forest vote once on every case, for any number of cores, any interleaving and any number of trees.",
 ["schedules","configurations"],"nCores 1..8, nTrees 1..24, every interleaving, classification and regression, same or separate test data with a different category order",
 "No test runs the tool; keeping a tree that is later regrown in place, or dropping the last trees, depends on how the workers share the tree counter.",
 ["growforest/growforest.go","tree.go","catballotbox.go","numballotbox.go"],
 [("collection of trees for the test","growforest/growforest.go trees"),("replacement of the worker's tree object","growforest/growforest.go NewTree"),("coded split stripping for new data","tree.go StripCodes")],None,["stdout Error/Classified lines"])

p("P07","Leaf counting gives the same exact counts for any number of threads",
 "For any number of reader threads, any number of forest files and any interleaving, the leaf counting tool terminates and writes, for every pair of cases, the number of trees in which they share a leaf, for every case and feature the number of splits on that feature the case passes through, and for every feature the multiset of its split values. Nothing is lost, duplicated or reported before all files are processed.",
 ["schedules","configurations"],"threads 1..6, 1..6 forest files (fewer and more than threads), every interleaving, with and without branch and split outputs",
 "The tool has no tests; its worker hand-off and shared tables only misbehave under particular interleavings and thread/file ratios.",
 ["leafcount/leafcount.go","tree.go","utils.go","node.go","forestreader.go"],
 [("file and done channels","leafcount/leafcount.go"),("shared sparse counters","utils.go SparseCounter"),("leaf enumeration","tree.go GetLeaves")],None,["-leaves, -branches, -splits files"])

p("P08","Shared vote boxes, running means and counters are linearizable",
 "When any number of callers concurrently vote into, add to, read or tally the shared ballot boxes (categorical, numerical, sum), running means and sparse counters, every result is one that some order of the same calls consistent with real time would give, and afterwards nothing is lost, duplicated or credited to another case or category. No interleaving races, deadlocks or panics, including whole trees voting in parallel into one box.",
 ["schedules","histories"],"2..6 concurrent callers, every interleaving at statement and lock granularity, new and known categories, several cases, weights including zero",
 "The one test of a ballot box is sequential; a read outside the lock, a check-then-act on the category table or a split update is only visible to a concurrent caller at the right moment.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","utils.go","catmap.go"],
 [("per-case locks","catballotbox.go CatBallot, sumballotbox.go SumBallot"),("running mean lock","utils.go RunningMean"),("sparse counter lock","utils.go SparseCounter"),("shared category table","catmap.go CatToNum")])

p("P09","A tally depends only on the votes cast, not on their order of arrival",
 "For every multiset of votes for a case, every order in which they arrive and every internal iteration order, the tallied winner is the same: the category with the greatest total weight (ties resolved the same way every time), the weighted mean, or the weighted sum. A case without votes is reported as not available by categorical and mean voting, and the error computed from the votes is that of exactly these votes.",
 ["histories","schedules"],"all arrival orders and concurrent schedules of up to 40 votes over up to 6 categories with ties; every map iteration order",
 "Go randomises map iteration and worker scheduling decides arrival order; a unit test sees one order and mostly untied votes.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","applyforest/applyforest.go"],
 [("winner selection","catballotbox.go Tally"),("mean and sum","numballotbox.go, sumballotbox.go")])

p("P10","With a fixed random source a single-core run is exactly repeatable",
 "Run with a fixed random source on one core, growing a forest, applying it or dividing data into folds produces byte-identical output files and reports every time: nothing depends on the clock, on map iteration order, on how the operating system splits reads and writes, or on what else ran before.",
 ["schedules","inputs"],"pairs of runs with identical inputs and random stream but different clock values and jumps, map iteration orders, read/write chunkings; all output kinds",
 "A unit test runs once in one environment; dependence on map order or the clock shows only when two runs that differ in nothing else are compared.",
 ["growforest/growforest.go","forestwriter.go","catballotbox.go","densenumfeature.go","ordinaltarget.go","applyforest/applyforest.go","utils/nfold/main.go"],
 [("-noseed","growforest/growforest.go"),("category set serialisation","forestwriter.go DescribeMap"),("mode of numeric values","ordinaltarget.go, densenumfeature.go Mode")])

p("P11","A saved forest read back through any stream predicts identically",
 "A forest written out and read back, whole or tree by tree, from one stream or several concatenated ones, and however the stream cuts or delays the bytes (short reads, data together with end-of-file, no final newline), has the same trees in the same order, the same target, weights and intercept, and gives every case of every data set the same votes as the original.",
 ["inputs","schedules"],"random trees with numerical, categorical and missing branches, weights, intercepts, feature names and categories over the characters the format can carry, forests grown by the tool and by library callers; every read chunking",
 "The round-trip test covers one forest through one buffer; chunk boundaries, third branches, intercepts and last lines without a newline are not exercised.",
 ["forestreader.go","forestwriter.go","tree.go","node.go","splitter.go"],
 [("forest parser","forestreader.go ReadForest/ReadTree"),("forest serialiser","forestwriter.go"),("node path insertion","tree.go AddNode")])

p("P12","A failing or truncated forest stream is never taken for a complete forest",
 "If the stream a forest is read from fails with an error at any byte, the reader reports that error instead of returning a shorter forest as a success, and the applying and leaf counting tools exit with a failure and without writing results. A stream cut off at any byte never crashes or hangs the reader; what it returns as trees are trees of the original, the last one at most incomplete, and trees delivered complete are unaltered.",
 ["fault_sequences","crash_points"],"a read error or an end of stream injected at every byte offset class, any chunking, errors delivered with or without data, transient errors",
 "No test injects a read error; swallowing one looks exactly like a short forest.",
 ["forestreader.go","applyforest/applyforest.go","leafcount/leafcount.go"],
 [("error propagation","forestreader.go ReadForest/ReadTree"),("tool error handling","applyforest/applyforest.go, leafcount/leafcount.go")])

p("P13","A crash while growing loses no finished tree",
 "If the growing process dies at any instant, the forest file holds, complete and unaltered, every tree its workers had finished with before (a worker starts on its next tree, or progress reports it, only once the previous tree has been handed to the operating system), followed by at most unfinished output of trees being recorded at that instant. The readable prefix loads as valid trees of that run.",
 ["crash_points","schedules"],"process death at every file operation and at arbitrary statements in between, nCores 1..8, every interleaving",
 "Crash points cannot be placed by a unit test; buffering output until the end passes every test and loses hours of growth.",
 ["growforest/growforest.go","forestwriter.go"],
 [("incremental tree output","growforest/growforest.go forestwriter.WriteTree"),("unbuffered writer","forestwriter.go")],None,["the .sf file at the crash instant"])

p("P14","No tool reports success over incomplete output",
 "If creating, writing or closing any output file fails (disk full, I/O error, short write, failing close) at any point, the tool ends with a failure status, and a library writer returns an error. Conversely whenever a tool exits successfully or a writer returns no error, every requested output file is complete and identical to the one written without faults.",
 ["fault_sequences","crash_points"],"every output file of growforest, applyforest, leafcount, nfold and toafm and every exported writer; failure of any create, write or close call, short writes, a disk filling up at any byte",
 "Tests write to memory or to a healthy disk; an ignored write error is invisible there.",
 ["forestwriter.go","growforest/growforest.go","applyforest/applyforest.go","leafcount/leafcount.go","utils/nfold/main.go","utils/toafm/main.go","arff.go","libsvm.go","featurematrix.go"],
 [("forest output","forestwriter.go"),("report files","growforest/growforest.go, applyforest/applyforest.go, leafcount/leafcount.go"),("matrix writers","featurematrix.go WriteCases, arff.go, libsvm.go")])

p("P15","A failing data file is never loaded as a shorter table",
 "If reading a data file (tab separated in either orientation, ARFF, LibSVM, or zipped) or an exclusion list fails part-way with an I/O error or a corrupt archive, loading reports an error instead of returning the part read so far, and every tool exits with a failure without writing results. A stream that is empty, fails at once or is cut off at any byte never crashes or hangs a parser.",
 ["fault_sequences","crash_points"],"a read error, truncation or flipped stored byte at any offset of any input format and container, any chunking",
 "No test injects a failing reader; a swallowed read error yields a plausible smaller table and a silently wrong model.",
 ["featurematrix.go","arff.go","libsvm.go","growforest/growforest.go","applyforest/applyforest.go","leafcount/leafcount.go","utils/nfold/main.go","utils/toafm/main.go"],
 [("loading","featurematrix.go LoadAFM"),("parsers","featurematrix.go ParseAFM/LoadCases, arff.go ParseARFF, libsvm.go ParseLibSVM")])

p("P16","Loading gives the same table however the bytes arrive",
 "For every table, the matrix loaded from it has exactly its features in order, its case labels, its values and its missing entries, whichever way the operating system delivers the bytes (short reads, single bytes, data together with end-of-file), whether plain or zipped, with features as rows or as columns, and with or without a final newline. Writing selected cases out again and loading the result gives those cases back unchanged.",
 ["inputs","schedules"],"random tables in AFM (both orientations), ARFF and LibSVM form under every chunking and container; every case selection",
 "The parsing tests use small in-memory strings delivered in one read; chunk boundaries, containers and last lines are not sampled.",
 ["featurematrix.go","arff.go","libsvm.go","densecatfeature.go","densenumfeature.go","catmap.go"],
 [("parsers","featurematrix.go, arff.go, libsvm.go"),("value append and missing detection","densenumfeature.go/densecatfeature.go Append"),("writers","featurematrix.go WriteCases, arff.go WriteArffCases, libsvm.go WriteLibSvmCases")])

p("P17","Fold generation partitions the data for every random draw",
 "For every random stream, the testing sets of the folds are pairwise disjoint and as large as stated, each training set is exactly the union of the other folds' testing sets, stratified folds hold equal numbers of each class, and no case outside the table or twice in a set appears. Every format requested holds the same cases with the same values as the source table, missing entries included, in every fold; asked for an encoding it holds the encoded features, each category by its indicator.",
 ["inputs","configurations"],"every random stream, 2..6 folds, stratified and unstratified, all formats alone and together, blacklists, imputation and encodings",
 "The tool has no tests; a duplicated or leaked case depends on the draws, and contamination across folds needs several folds and formats in one run.",
 ["utils/nfold/main.go","sampeling.go","featurematrix.go","arff.go","libsvm.go"],
 [("fold assignment","utils/nfold/main.go"),("shuffle","sampeling.go SampleFirstN"),("fold writers","arff.go, libsvm.go, featurematrix.go")])

p("P18","Every sampler returns a valid and fair sample for any random stream",
 "Whatever the random source returns, a sample has exactly the requested size and only admissible cases: sampling without replacement returns distinct entries and keeps the deck a permutation of itself leaving known constants in place, sampling with replacement stays in range, and balanced samplers return only cases whose class is known, choosing classes with equal probability (within each stratum of the secondary feature, strata at their own rate) and cases of a class with equal probability. The features a node of a tree or jungle looks at are such a sample too: none twice, no more than asked for, and every one that varies among the node's cases if all are asked for.",
 ["inputs"],"every random stream including the extreme draws, decks and class layouts of any size including classes without cases",
 "Tests draw a few samples from one seeded stream; off-by-one bounds that never pick the last element or break on extreme draws pass them.",
 ["sampeling.go","featurematrix.go","growforest/growforest.go","densenumfeature.go","densecatfeature.go"],
 [("samplers","sampeling.go"),("candidate draw","featurematrix.go BestSplitter")])

p("P19","Gradient boosting applies each tree to every case exactly once, in sequence",
 "In a gradient boosting run, whatever number of cores is asked for, each tree is fitted only after the previous tree's prediction times the learning rate has been subtracted from the residual of every case with a known target, exactly once. Each leaf predicts the mean residual (for two-class boosting the Newton step, zero where every case is already predicted with certainty) of the bag cases it holds at that moment, in trees and in jungles, and the saved forest (intercept, weights, leaves) applied with sum voting reproduces the boosted prediction of every case.",
 ["schedules","inputs"],"nCores requests 1..8, every random stream, numerical targets and two-class targets, missing predictor values, nobag and bagging, 1..12 trees or jungles",
 "The effect of a missed or doubled residual update is a slightly worse forest, which an accuracy threshold cannot see; it depends on growth history and core settings.",
 ["gradboosttarget.go","gradboostclasstarget.go","growforest/growforest.go","tree.go","forestwriter.go"],
 [("residual update","gradboosttarget.go Update/Boost, gradboostclasstarget.go"),("whole-data partition","tree.go Partition"),("serialised boosting step","growforest/growforest.go boost section")])

p("P20","Applying a forest gives each case the votes of every tree, once, in order",
 "However the forest and data files are delivered by the operating system, the prediction file has one row per case in the order of the data with its label, the combined vote of all trees (weighted mode, mean or sum plus intercept, optionally logistic) and its actual value, and the vote file has each case's exact vote totals per category. Features are matched by name, so column order, extra features and a different category order make no difference, and the error reported for mode or mean voting is that of these predictions.",
 ["inputs","schedules"],"random forests and data sets with missing values, all voting modes, any chunking of both files, permuted features and categories",
 "The tool has no tests; the combination of voting mode, missing routing and file delivery is open-ended.",
 ["applyforest/applyforest.go","tree.go","node.go","splitter.go","catballotbox.go","numballotbox.go","sumballotbox.go","forestreader.go"],
 [("vote collection and output","applyforest/applyforest.go"),("name based split evaluation","splitter.go Split")])

p("P21","Shuffles and contrasts are permutations that leave real data untouched",
 "For every random stream and schedule, shuffling a feature or a subset of its cases yields a permutation of its (value, missing) pairs confined to those cases, contrast features are shuffled copies appended under their own names, and neither adding contrasts nor growing with them (vetting, ACE, several workers) changes any value of the real features or of the target. A growing run has exactly the contrasts that were asked for, what is asked to be shuffled is, and imputing replaces the missing values, and only these, by the mean or the most frequent category of their feature.",
 ["inputs","schedules"],"every random stream, numerical and categorical features with missing values, growth runs with vet/contrasts/ACE under any interleaving",
 "Tests check one shuffle of one feature; a shuffle that writes through to the original or loses values on some draws is statistical noise to them.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go","growforest/growforest.go"],
 [("shuffles and copies","densenumfeature.go/densecatfeature.go Shuffle, ShuffleCases, ShuffledCopy, Copy"),("contrast creation","featurematrix.go AddContrasts, ContrastAll")])

p("P22","ACE rounds are accounted separately and only significant features survive",
 "For any number of cores and any interleaving, an ACE run grows the requested number of forests one after another (no tree of a round starts before the previous round's trees are finished), shuffles the contrasts anew for each round, scores every feature in each round only from that round's trees, excludes the target and its contrast everywhere, and reports per feature the p-value and mean of exactly these scores. With a cutoff the final saved forest, and nothing but it, is grown using only the features whose score beats their contrast at the cutoff, portions and defaults of candidates per split being taken of these.",
 ["schedules","configurations"],"nCores 1..8, 2..5 rounds, with and without cutoff, every interleaving",
 "Rounds are separated only by a barrier between worker groups; leakage between rounds needs a worker to be late, which tests never arrange.",
 ["growforest/growforest.go","utils.go","tree.go","stats/stats.go"],
 [("round barrier","growforest/growforest.go waitGroup"),("per-round score reset","growforest/growforest.go imppnt"),("cutoff selection","growforest/growforest.go blacklistis")])

p("P23","Adaptive boosting reweights each case once per tree, from that tree's leaves",
 "In an adaptive boosting run (classification, with or without costs, or regression), whatever number of cores is asked for, trees are fitted one after another, each to the case weights left by the reweighting after the previous tree. Every reweighting uses exactly the leaves of the tree just grown over all cases with a known target, happens exactly once and leaves finite weights that add up to one. A classification tree is saved with the weight half log((1-e)/e) of its weighted error e (zero, changing nothing, when e is at least one half) and cases outside their leaf's majority gain what the others lose; for regression a tree's weight is log(D/E) of the target's total deviation D from its mean and its weighted error E (zero if E is greater) and cases gain exponentially in that weight times their distance from their leaf's mean. A perfect tree changes no weights and ends the tool's boosting.",
 ["schedules","inputs"],"nCores requests 1..8, every random stream, two and more classes, misclassification costs, numerical targets of any scale, missing targets and predictor values, 1..12 trees, the tool and GrowRandomForest",
 "A reweighting that is skipped, doubled or uses stale leaves gives a forest that is only a little worse; it depends on the growth history, on the number of workers and on missing values.",
 ["adaboosttarget.go","adacosttarget.go","numadaboostingtarget.go","growforest/growforest.go","forrest.go","tree.go"],
 [("reweighting","adaboosttarget.go Boost, adacosttarget.go Boost, numadaboostingtarget.go Boost"),("whole-data partition","tree.go Partition"),("serialised boosting step","growforest/growforest.go boost section, forrest.go GrowRandomForest")])

p("P24","The scikit-learn export holds exactly the trees of the grown forest",
 "Whatever the number of cores, the interleaving and the kind of run (contrasts, ACE rounds, boosting), an export written by a growing run that ends normally holds every tree of the saved forest exactly once and no other. Each exported node array is one whole tree: reachable from node 0 with every node having one parent, node and depth counts as they are, and the same features, numerical thresholds and left and right children as the saved tree.",
 ["schedules","configurations","inputs"],"nCores 1..8, 1..24 trees, every interleaving, all target kinds, numerical and categorical features, contrasts, missing branches, ACE with and without cutoff, boosting",
 "No test writes the export; which trees end up in it depends on rounds and workers, and child positions on the shape of the tree.",
 ["sklearn_tree.go","growforest/growforest.go"],
 [("export","sklearn_tree.go BuildScikitTree"),("collection of exported trees","growforest/growforest.go scikikittrees")])

p("P25","What a run is asked to report or leave out doesn't change the trees it grows",
 "With a fixed random source and one core, the saved forest (and the importance scores) is the same whatever else the run is asked for: importance, out-of-bag error and predictions, progress, self-test, other test data, scikit-learn export, profile. It does not depend on case labels, on whether the table is stored with features in rows or columns or zipped, on the values of features excluded from a run without contrasts, nor (without imputation, contrasts, shuffling or boosting) on the predictor values of cases whose target is unknown. Asking for more trees only adds trees after the ones of the smaller run (outside ACE). Boosting, which is serial, gives the same forest whatever the number of cores.",
 ["configurations","histories","inputs"],"pairs of runs over every target kind, growing option, ACE rounds, boosting, jungles, blacklists and name patterns, missing values and targets; interleavings of 1..8 workers for boosting",
 "Leakage of reports or excluded data into growth shows only when two whole runs with the same random stream are compared; tests never control the random source.",
 ["growforest/growforest.go","tree.go","featurematrix.go","sampeling.go"],
 [("growth loop and reports","growforest/growforest.go main"),("exclusion of features","growforest/growforest.go blacklist"),("cases with a known target","growforest/growforest.go evalcases, bag and known cases"),("loading","featurematrix.go ParseAFM, LoadAFM")])

p("P26","Converting, anonymising or encoding a table loses and invents nothing",
 "Whatever the input format, container, text and delivery of bytes, a converted data file that toafm ends with status 0 for holds exactly the features that are not excluded, in order, with every label, value and missing entry; written as LibSVM, one line per case with the target first and every other feature imputed and encoded. An anonymised table is the same table, target first, with features, cases and categories renamed one to one. Anonymising or encoding a loaded table leaves names, numbers and categories consistent with each other, and encoding leaves the original as it was.",
 ["inputs","configurations"],"random tables in AFM (both orientations, zipped), ARFF and LibSVM form with unusual text, every chunking; blacklists with unknown, repeated and target names; LibSVM output, anonymising; the library calls StripStrings, OneHot and EncodeToNum",
 "The tool has no tests; what gets lost depends on the mix of features, names and missing values in a table.",
 ["utils/toafm/main.go","featurematrix.go","libsvm.go","densecatfeature.go"],
 [("conversion","utils/toafm/main.go main"),("anonymising","featurematrix.go StripStrings"),("encoding","featurematrix.go OneHot, EncodeToNum, densecatfeature.go OneHot, EncodeToNum"),("writers","featurematrix.go WriteCases, libsvm.go WriteLibSvm")])

p("P27","Each node takes the best split of its own cases and stops only when it must",
 "For every random stream, schedule and history of the reused scratch space, the split a node takes decreases the impurity of its own bag cases by at least as much as any other split of the same feature that leaves the minimum number of cases on both sides: any threshold between distinct values, any combination of up to five categories, any single category against the rest, and one more category on its left, beyond that. Where all features are tried (and splits aren't penalised or evaluated out of bag) it is at least as good as the best split of any feature that isn't excluded, and a node within the depth and size limits becomes a leaf only if no split decreases its impurity. The impurity is that of the target asked for: Gini or squared error, entropy (with disutilities), absolute deviation, ordinal, class weights, costs, Neyman-Pearson or Hellinger distance, density over the spans of all features, transduction, the weighted error of adaptive and Friedman's score of gradient boosting; missing values count as a third group. With evaluation out of bag a node takes only splits that help there, and takes one if all features are tried and one helps in and out of the bag, never passing over one that helps more in both than the one taken does out of the bag. Extra-random thresholds are exempt.",
 ["inputs","schedules","histories"],"every bag and order of candidate draws, numerical and categorical features with ties, missing values and values of any scale, all kinds of targets, trees, boosted trees, jungles and ACE rounds; interleavings of up to 8 workers and of library callers",
 "Tests compare a few hand-made features; which splits are searched depends on the order of the random draws, on what siblings found constant, and on scratch space left by other nodes, trees and workers.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go","tree.go","splitallocations.go","densitytarget.go","transduction.go"],
 [("search over features","featurematrix.go BestSplitter"),("search over thresholds","densenumfeature.go BestSplit, BestNumSplit"),("search over categories","densecatfeature.go BestSplit, BestCatSplit, BestCatSplitIter, BestCatSplitIterBig, BestBinSplit"),("impurities","densenumfeature.go, densecatfeature.go and *target.go Impurity, SplitImpurity, UpdateSImpFromAllocs")])

p("N02","Statistical helper functions compute the documented statistics",
 "The Welch t-test, incomplete beta function, logit/expit and error scores agree with their mathematical definitions within floating point accuracy.",
 ["inputs"],"all samples","Tests check two samples.",["stats/stats.go","gradboostclasstarget.go"],[("t-test","stats/stats.go Ttest")])
p("N03","Paired sorting sorts values and keeps cases attached",
 "For every input the paired sort leaves the values ascending and each case next to its own value.",
 ["inputs"],"all slices","Tests sort random slices.",["sortby/sortby.go","sortablefeature.go"],[("sort","sortby/sortby.go SortBy")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
