"""What each check assures (MANIFEST level_note) and why the rest is not claimed."""
COMMON=" Sampling, not exhaustive: each history is one seeded schedule, random stream and fault plan; the code under test is an instrumented copy of /repo's current sources with scheduler, locks, channels, clock, random source and files simulated."
NOTES={
"P01":"Growing runs under adversarial schedules; ends without panic, hang or livelock, the saved file parses strictly, and its trees are exactly the trees grown (observed at Tree.Grow), each once."+COMMON,
"P02":"Every growth is repeated alone from the same bag and random state with fresh scratch space and compared; Go's race detector, told of exactly the program's own synchronisation, watches all interleavings."+COMMON,
"P03":"Bags, split limits, exclusions and leaf predictions of every grown tree are recomputed by an independent routing model from the data as it was when the tree was grown."+COMMON,
"P04":"Out-of-bag votes are recounted from the observed bags and the saved forest by an independent voting model; error, running errors and prediction file are compared (ties between classes may go either way)."+COMMON,
"P05":"The importance report is recomputed from every split observed at Tree.Grow (counts, mean decreases, trees using a feature, depth of first use) and compared, under adversarial interleavings of the shared running means."+COMMON,
"P06":"The saved forest votes on the test data through an independent model; reported error, classification counts and progress are compared for every core/tree ratio and interleaving, on training and separate data."+COMMON,
"P07":"Leaf pair, branch and split counts are recomputed from the forest text by an independent router and compared line by line; Go's race detector watches every interleaving; disk faults must end in a failure status."+COMMON,
"P08":"Concurrent calls on ballot boxes, running means and sparse counters are checked for linearizability against small sequential models, and for conservation afterwards; Go's race detector, told of exactly the program's own synchronisation, watches all interleavings."+COMMON,
"P09":"The same multiset of votes is cast in several orders, by several tasks and under several map iteration orders; every tally must be equal to the first and to an independent model's."+COMMON,
"P10":"Pairs of runs with the same input and random stream but different clock, map order, read/write chunking, CPU count and scheduler seed must be byte identical (growing, applying, fold generation)."+COMMON,
"P11":"Forests are written, read back through streams that deliver bytes in seeded pieces, and compared structurally, by re-emission, and by the votes an independent model and the tools give."+COMMON,
"P12":"The forest stream fails or ends at every kind of position (seeded bytes, line and header boundaries); what readers return is compared with a model of the original, and tools must fail without results."+COMMON,
"P13":"The simulated process is killed at arbitrary steps and file operations (unsynced writes torn or lost); what is left on disk must be whole grown trees followed by at most one cut tree, every tree followed by a later write present."+COMMON,
"P14":"Every open, write, sync and close of every output file of every tool is failed (I/O error, full disk, short and lost writes); the tool must exit with a failure status or leave exactly the bytes of the fault-free run."+COMMON,
"P15":"Data streams fail, end early or are corrupt (zip) at seeded bytes for every reader and tool; a load without an error must equal the complete table, tools must fail without results; nothing may hang or crash."+COMMON,
"P16":"Tables are rendered by the harness in every format and orientation and loaded through seeded chunkings; the matrix is compared with the table value by value, then selected cases are written out and read back."+COMMON,
"P17":"Fold files of every format are parsed by the harness's own readers and compared with the source table: disjointness, sizes, stratification, complement, values and missing entries, for every random draw."+COMMON,
"P18":"Samplers, shuffled decks and the choice of candidate features are driven with seeded and extreme random draws, alone and shared by tasks; sizes, admissibility and permutation are checked on every draw, fairness by counts far beyond chance; every node of grown trees and the bags of growing runs are watched."+COMMON,
"P19":"Residuals are read at the start and end of every growth and compared with an independent boosting model (routing, means, Newton steps); the saved forest is applied with sum voting and compared with the boosted predictions."+COMMON,
"P20":"Prediction and vote files are recomputed by an independent routing and voting model over made-up forests and permuted, extended or recategorised data, for every voting mode and read chunking."+COMMON,
"P21":"Every shuffle and contrast is compared as a multiset with its source; the real data are compared with the file whenever a tree is begun or finished, under adversarial interleavings."+COMMON,
"P22":"Observed growth is attributed to rounds; barrier, per-round scores, p-values, means, fresh contrast shuffles, exclusions and the cutoff's selection are recomputed."+COMMON,
"P23":"Case weights are read at the start and end of every growth; the leaves are found by an independent router over the table, weighted errors, tree weights and reweightings recomputed and compared, for every core request and random draw."+COMMON,
"P24":"The exported JSON is parsed and walked from its root; structure and contents are compared with the saved forest, which other checks tie to the grown trees, under adversarial interleavings."+COMMON,
"P25":"Pairs of runs of the real tool on the same simulated random stream, of which one is asked for other reports, other outputs, more trees or more cores, or gets other labels, storage or irrelevant values, must save the same forest."+COMMON,
"P26":"Tables rendered by the harness in every format are converted by the real tool through seeded chunkings of its reads and writes; the output is compared with the table value by value up to the renaming, encoding or exclusion asked for."+COMMON,
"P27":"Every node of every observed growth is searched again by brute force over its own bag cases, with an independent computation of the impurity asked for, under seeded random streams, schedules and reuse of scratch space; the split taken must match the best found."+COMMON,
}
NA={
"N02":"Pure arithmetic on slices; nothing nondeterministic to simulate.",
"N03":"Pure, sequential permutation of two slices; nothing nondeterministic to simulate.",
}
