P={}
def p(i,t): P[i]=t
p("C01","Searches on random problems (10 design kinds × 8 target kinds, 3–14 columns, 2–45 rows) with nine kinds of start model, list capacities 1–5+, delayed reads and 1–8 processors. Oracle: AICc of *every* admissible subset by own orthogonalisation; the best entry must reach the minimum (value, not identity, so ties are harmless), and the start model counts as a candidate. Reach: the exponential oracle for each of several thousand problems; the suite has a handful of fixed ones, where pruning errors rarely matter.")
p("C02","As C01 plus cutoffs, queue limits 1.., and the exhaustive search; every listed entry is recomputed: columns, coefficients (minimum-norm least squares by own SVD), score, distinctness, order, bounds bracket.")
p("C03","Random (design, target, model, position): all completions enumerated (up to 2^10) for AIC and AICc; equal leading positions must give equal bounds; all fixed means equality. Includes more columns than rows, dependent columns, exact fits.")
p("C04","Positive and negative cutoffs against the full AICc table; negative cutoffs with start models and lists large enough that every near-optimal model must appear; huge cutoffs; `CreateChild` decisions next to the threshold recomputed.")
p("C05","Queues of 0–200 nodes with ties, round-off-prone equal bounds, -1e100 bounds and values around the threshold, compared with a filter over a recorded copy (identity and order of survivors); searches with queue limits must end and not be worse than the start model.")
p("C06","Histories of insertions (random, sorted, equal, infinite scores, same node twice) into lists of capacity 0–…, after every step compared with a sorted multiset; concurrent inserters and readers.")
p("C07","Race detector over pairs of operations that share every argument, each with concurrent readers of progress, best score, length, scores and JSON snapshots; snapshots are decoded and recomputed; delayed reads; 1–8 processors. A race report is attributed to the case by the heartbeat.")
p("C08","Every parallel operation with 0–40 work items around its worker count, all start models, cutoffs, queue limits; after each return the goroutine table must become free of library frames (bounded waiting on logical progress: a goroutine that can still run is waited for); deadlock is reported by the runtime or by the supervisor. \"Eventually\" is thereby restated as: it returns, and nothing of it is left blocked.")
p("C09","Pollers check each progress report against the previous one and against the triples ever set; after the return the report must equal the list's best score and the count of scored models (recorded by a list large enough to hold all). `torn` hammers Set/Get with recognisable triples; log-sum against 300-bit arithmetic up to counts beyond 2^1024.")
p("C10","Insertion histories (same selections with different coefficients, ties, capacity 1–8, shared and later overwritten slices) against a dictionary model; markers compared with the extremes.")
p("C11","Annealing runs under AIC, AICc, BIC and four recording cost functions; the recorded cost calls give the set of evaluated models; leaderboard, best entry, coefficients and local optimality (every single flip) are recomputed. \"Considers every feature\" is asserted for information criteria with enough sweeps only (see false alarms). Sweep counts of zero and less are included (the search used not to end).")
p("C12","All three criteria on a grid of (k, n, r) with boundary values (r = 0, around 1e-12, n-k-1 ≤ 0), monotonicity, finiteness; and exact fits produced by searches and paths must be finite everywhere.")
p("C13","Designs with singular values zero or clearly above the cut-off, tall, square, wide, dependent, scaled 1e-4…1e3, fitted as dense, strided, transposed, opaque matrices: orthogonality of the residual, minimum norm by own SVD, equivariance under permutations and scalings; `scales`: rows and columns at very different overall scales.")
p("C14","Random matrices as five concrete types against plain loops; mismatching lengths must panic.")
p("C15","Means and deviations recomputed with exact-ish sums; constant columns (any value, any place) must be rejected; `units`: columns in units from 1e-8 to 1e8 with offsets; mapping back compared by predictions on the original data, nodes with lists cut from one array included.")
p("C16","Coordinate descent for strengths 0…above the largest correlation, four covariances, pure and ridge correction, five kinds of start vector, tolerances to 1e-13: optimality conditions from own normalisation and own gradient. `slow`: nearly dependent columns, where tens of thousands of passes are needed.")
p("C17","Paths of 1–40 strengths over shared covariances and corrections on 1–8 processors, node by node against a single solve with a fresh correction and against own lasso; leading empty nodes.")
p("C18","LARS paths on well-conditioned data, with intercept, wide: strengths, optimality at every node and at midpoints between nodes, interpolation towards own solution at the requested minimum, agreement with own and library coordinate descent. Half of the estimators have worked on another dataset before.")
p("C19","Random, shuffled (`order`) and computed paths: criterion calls recorded, values, traces, relevance lists for every length, extremes, sparse models recomputed; captured rankings read back line by line. Nodes that select nothing are among them.")
p("C20","Nested lasso with every target position and keep fraction; survivors replayed round by round from the observed paths; optimality of every node in the surviving columns; dataset hashed before and after; the printed rankings read back round by round. Keep fractions of one and more and minimum strengths above the whole path are included (both used to fail, the first by never ending).")
p("C21","Estimators recomputed; sparse estimator called repeatedly and concurrently and compared bit by bit; its effective threshold is read exactly, so entries at the threshold are judged; other matrices must be rejected; operators probed with ladders of neighbouring floats.")
p("C22","Tagged rows make splits checkable as partitions; different splits must differ in the row sets; searches on recording matrices allow to reconstruct each split from the reads and to recompute the average of every grid point and its argmin.")
p("C23","All pairs of subsets for N ≤ 5, random pairs up to N = 60 and nearly empty/complete ones up to N = 6000, in random order, against the definition from two rating vectors.")
p("C24","Recording targets with scripted selections and delays (1–40 targets around the worker count): rows of each pair of calls are complementary halves, number of calls, overlap, mean and winner recomputed, captured output lines compared with the means; `close`: targets whose kappas differ by less than 0.001; lasso targets against own lasso on the rows they were given.")
p("C25","CSV texts built from known values (notations, blanks, tabs, quotes, CRLF, blank lines, header names with #, quotes, commas; to several MB), every target −n…n−1, readers with 1-byte/random chunks/EOF with data, files.")
p("C26","Datasets with extreme values and names, all target positions, writers that take short pieces or fail; bytes handed over at the return are counted; read back and compared to the decimals written.")
p("C27","Nodes, lists of any fill level (insertion, search, exhaustive), datasets, paths with extreme floats: encoded alone, nested, by value and pointer, decoded into fresh and used objects; bit comparison. Pairs of nodes and lists that agree, or differ in exactly one field, entry, length, capacity or the order, for the equality functions.")
p("C28","Datasets parsed, decoded and built, every target position: names ↔ columns, subsets of subsets, copies (mutated to show independence), equality with one perturbed field.")
p("C29","Every prefix of the reported order refitted by an independent solver: greedy choice (ties by value), truthful coefficients, stopping rule.")
p("C30","Expansions to degree 6, whole or by subsets in several steps; multiset of columns compared with independently enumerated monomials; Cartesian product against nested counting.")
p("C31","Matrices built from chosen singular values with a gap at the tolerance, negligible values included: known inverse and Moore–Penrose conditions; hat matrix laws; GCV against brute-force leave-one-out, rows of leverage near one included.")
p("C32","Every analysis entry point called twice with arguments whose complete reachable memory (unexported fields, spare capacity, surroundings of views) is hashed around each call, and results compared.")
p("C33","Weights against definitions with offsets to 1e13, normalisation, averages and full vectors of sparse models.")
p("C34","goselect bnb/sasearch/lasso, goselect-nestedlasso, goselect-plotlasso, goselect-cohenlasso, goselect-mem, built from the tree and run as processes in a scratch directory: exit status, strict decoding of the file (complete, nothing after it), recomputation of everything from the CSV; old files at the output path; figures compared byte for byte with the library's; the printed kappa table and queue sizes parsed and checked. `paused`: searches whose process is stopped for 61 s in the middle (SIGSTOP), so that the save the tool makes every minute takes place during the search. `options`: runs without the options that have a default against runs with the defaults written out, and runs with options that mean nothing; the files of the scratch directory are compared before and after each run.")
p("C35","Bit sets against []bool, views against direct indexing and in products, small helpers against definitions.")
p("C36","Plots drawn on a recording canvas; strokes inside the data area compared with the expected polylines in data coordinates, axis ranges, entrance times. Paths with nodes that select nothing are among them.")
p("C37","Listed models of an exhaustive search against all bit masks; scores and coefficients recomputed.")
p("C38","Intact texts and encodings (accepted first, so a rejection means something) are damaged in one place; readers fail after any number of bytes with different errors; every way to read them must panic, return an error or return nothing. The tools run on damaged and missing files and with unwritable outputs: exit status, and every file of the scratch directory compared before and after.")
p("C39","Each entry point is called with fitting arguments (must work) and then with one that does not fit; it must panic, leave every argument's reachable memory unchanged (hashes), the list and the progress report as they were, and no goroutine behind.")
p("C40","Groups of 2–8 goroutines released together run the same or different calls (47 kinds, every entry point) on shared arguments under the race detector and 1–8 processors; results are compared with the same calls made alone, which happen before the group in one half of the cases and after it in the other (so that state filled by a first call is seen being filled). Random calls are judged by a law (row partition, scores recomputed); coordinate-descent paths, whose warm starts depend on the schedule, are compared where their solutions are unique and reached.")
p("C41","Every kind of call (those of C40 and reads and writes of damaged, missing and unwritable files) is repeated with new arguments each time. Finalizers on the argument arrays show which arguments stay reachable (three or more of eight sets: violation; one or two may be held by a cache of the last call or by the runtime), the live heap is measured before and after 40 repeats (64 bytes per call, twelve times in a row: violation, because the runtime itself grows to a plateau first), and /proc/self/fd is counted around each call while the collector is off, since finalizers would close forgotten files.")
p("C42","Each of 55 kinds of results is produced three times from the same arguments; the address ranges reachable from it (unexported fields and spare capacity included) must be disjoint from those of the arguments, the other results and, for nodes, lists and tuples, between its parts. The first result is overwritten between the calls: arguments and the second result must keep their hashes and the third must equal the second.")
p("C43","Histories of 3–26 calls of all 47 kinds and 35 kinds of failing calls (elements, callbacks, readers and writers that fail after a random number of uses; wrong lengths; cut texts) are made in one process, the arguments of the compared calls often being objects that held other values in earlier calls. Each compared call is made as the only call of a new process as well (another GOMAXPROCS, directory, locale and time zone; same generator seed), and both results, panics included, must agree to rounding. Coordinate-descent paths and random calls are judged as in C40.")
import json,sys,os,glob
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
out=open(here+"/design_head.md").read()
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
for d in props:
    ev={}
    out+="**%s %s.** %s\n\n"%(d["id"],d["title"],P[d["id"]])
out+=open(here+"/design_tail.md").read()
out+="\n## Planted bugs\n\nEach was written from the property and the code, confirmed in a scratch copy (`tools/plant.py`: applies, builds, keeps the stable tests, demonstration fails with it and passes without), and is run by `tools/seeded.sh`. All are caught by the quick tier of the named check; \"first missed\" marks those that led to a stronger check.\n\n| bug | check | needs |\n|---|---|---|\n"
missed=set(open(here+"/first_missed.txt").read().split())
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    out+="| %s%s | %s | %s |\n"%(i," (first missed)" if i in missed else "",j["property"],j["needs"].replace("|","/"))
open(root+"/DESIGN.md","w").write(out)
