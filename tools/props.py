#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
F = "featselect/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [f if "/" in f or f.endswith(".md") else F + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Branch and bound finds the model with the smallest AICc",
 "For every design matrix with at least three columns and every target, the branch-and-bound search with zero cutoff and an unreached queue limit reports as its best entry a model whose AICc equals the minimum over all non-empty feature subsets with fewer features than data points. This holds whatever start model is supplied (the start model itself is a candidate too, and may have any number of features) and however the worker goroutines interleave.",
 ["inputs", "schedules", "configurations"], "all datasets (also more features than rows, exact fits, ties), all start models, all worker interleavings",
 "The only end-to-end test runs one 7x5 dataset with no start model under whatever schedule happens; optimality is a claim over all datasets, start models and interleavings, and a wrong prune only shows for data where the pruned branch held the optimum.",
 ["optimize.go", "criteria.go", "node.go"], [("bound-based pruning", "SelectModel, CreateChild, CleanQueue"), ("tree of flips", "Node.GetChildNode"), ("bounds", "BoundsAICC")],
 [("queue", "frontier of unexplored nodes", "SelectModel"), ("numInProgress", "children still owed", "SelectModel")], ["highscore passed to the search", "reads of the design matrix"])
prop("C02", "Search results describe real, distinct, correctly scored models in order",
 "Every entry that a branch-and-bound or exhaustive search leaves in its highscore list is a non-empty feature subset of the design matrix with the least-squares coefficients of exactly those columns (in column order) and a score equal to minus the AICc of that fit. No feature subset is listed twice, the list is sorted best first, and the stored lower and upper bounds of an entry found by branch and bound bracket its AICc; all of this also holds with a cutoff, a tiny queue limit or a supplied start model.",
 ["inputs", "schedules", "configurations"], "all datasets, start models, cutoffs, queue limits, list capacities, interleavings",
 "Tests compare only the best score on one dataset; truthfulness of every listed entry under every configuration is not sampled.",
 ["optimize.go", "node.go", "highscore.go", "fit.go", "criteria.go"], [("scoring workers", "ScoreWorker"), ("new-model rule", "isNewNode / WasFlipped"), ("insertion", "Highscore.Insert")], None, ["entries of the highscore after (and during) the search"])
prop("C03", "AIC and AICc bounds bracket every completion of a partial model",
 "For every design matrix, target, model and position, the lower and upper bounds computed for AIC and for AICc enclose the corresponding criterion of every non-empty model (with fewer features than data points) that agrees with the given model on all positions before that position. The bounds depend only on those leading positions, and when every position is fixed the lower bound equals the criterion of that model.",
 ["inputs"], "all (design, target, model, position) including more features than rows and prefixes selecting nothing",
 "Tests check two upper bounds on hand-made 2-column data and no lower bound; soundness is a claim about all completions.",
 ["criteria.go", "optimize.go"], [("greatest/least common model", "Gcs, Lcs"), ("bounds", "bounds, BoundsAIC, BoundsAICC")])
prop("C04", "The branch-and-bound cutoff costs at most its own value",
 "With a positive cutoff c the best model reported by branch and bound has an AICc at most c above the true minimum, and a branch whose lower bound plus c exceeds the best score so far is not expanded. With a negative cutoff every model whose AICc is closer than |c| to the minimum is evaluated and, capacity permitting, listed.",
 ["inputs", "configurations", "schedules"], "all datasets, cutoffs of either sign, start models, interleavings",
 "No test sets a cutoff at all.",
 ["optimize.go"], [("admission rule lower_bound + cutoff < best", "CreateChild, CleanQueue, doc of SelectModel")], None, ["highscore list", "columns of the design matrix that get evaluated"])
prop("C05", "Queue pruning removes exactly the nodes above the threshold",
 "Cleaning the search queue with a threshold removes exactly the nodes whose lower bound is larger than the threshold and keeps the others in their order; dropping the least promising nodes removes exactly those with a lower bound above the queue's mean, so a node with the smallest lower bound always survives. A search with a queue limit still terminates and its best entry is never worse than the start model.",
 ["inputs", "configurations"], "all queues (equal bounds, infinite bounds, any length) and all queue limits >= 1",
 "Tests clean one four-element queue with distinct bounds and never reach the queue limit in a search.",
 ["optimize.go"], [("queue cleaning", "CleanQueue, RemoveLeastPromising"), ("queue limit", "SelectModelOptParams.MaxQueueSize")])
prop("C06", "The highscore list always holds the best models inserted so far",
 "After any sequence of insertions a highscore list is sorted best first, holds no more than its capacity, contains only inserted entries (each at most as often as it was inserted), and its scores are the best of all inserted scores - at least the top capacity-1 of them (and the best one whenever the capacity is 1 or more). Its best score is the maximum inserted so far and never decreases, and no insertion panics.",
 ["histories", "inputs"], "all insertion sequences with ties, equal, ascending, descending and repeated scores, and all capacities >= 1",
 "Tests insert four distinct scores into one capacity-4 list.",
 ["highscore.go"], [("ordered insertion with eviction", "Highscore.Insert")], [("Items", "score-ordered list", "Highscore")])
prop("C07", "Parallel searches and fits are free of data races",
 "Branch and bound, the coordinate-descent lasso path, the kappa sequence and the threshold search perform no unsynchronised conflicting memory accesses, whatever covariance estimator or lasso correction is used and while another goroutine reads the search progress, the best score or a JSON snapshot of the highscore list that is being filled, or compares that list. A snapshot taken during a search is valid JSON describing a sorted list of correctly scored models.",
 ["schedules", "configurations"], "all interleavings of workers and observers, all covariance estimators and corrections",
 "The suite is never run under the race detector and no test observes a search while it runs.",
 ["optimize.go", "highscore.go", "searchProgress.go", "lassoCrdDesc.go", "lassoCorrections.go", "covarianceMatrix.go", "thresholdCov.go", "cohens_kappa.go", "cmd/bnb.go"],
 [("progress lock", "SearchProgress.rwlock"), ("channels between workers", "SelectModel, LassoCrdDescPath, CalculateCohenSequence, L2ConsistentCovTO"), ("highscore lock", "Highscore")])
prop("C08", "Parallel operations always return and leave no goroutine behind",
 "For every input in their domain and every interleaving, branch and bound, the coordinate-descent lasso path, the kappa sequence and the threshold search return after finitely many steps without deadlock, and once they have returned all goroutines they started terminate. This holds for every number of work items relative to the number of workers, including one and zero work items for the lasso path and the kappa sequence.",
 ["schedules", "inputs", "histories"], "all interleavings and work-item counts (fewer, equal, more than the workers); repeated calls",
 "Tests never look at goroutines and only try one or two work-item counts.",
 ["optimize.go", "lassoCrdDesc.go", "cohens_kappa.go", "thresholdCov.go"],
 [("in-progress counting and channel closing", "SelectModel"), ("work/result channels", "LassoCrdDescPath, CalculateCohenSequence, L2ConsistentCovTO")])
prop("C09", "Search progress reports are consistent, monotone and finally exact",
 "A reader polling the progress of a running branch-and-bound search always sees the three values of one single update; the number of explored models and the log2 count of pruned models never decrease, and once a model has been explored the best score never decreases. After the search has returned, the progress reports the best score of the highscore list and exactly the number of models that were scored, and combining pruned counts behaves as log2(2^a + 2^b).",
 ["schedules", "histories", "inputs"], "all interleavings of reader and search; all datasets; all sequences of updates",
 "The test sets and gets once from one goroutine.",
 ["searchProgress.go", "optimize.go", "util.go"], [("read-write lock", "SearchProgress"), ("progress updates", "SelectModel"), ("log-sum", "NewLog2Pruned")])
prop("C10", "The annealing leaderboard keeps the top distinct selections intact",
 "After any sequence of insertions the annealing leaderboard of capacity K holds the min(K, distinct) best-scoring distinct selections inserted, each together with the score and the coefficients it was inserted with. Its best and worst markers carry the selection, coefficients and score of the best and worst of those, and re-inserting a listed selection changes nothing.",
 ["histories", "inputs"], "all insertion sequences (each selection having one score), all capacities >= 1, ties",
 "The single test inserts five items into a capacity-3 list and looks only at scores and pointers, never at coefficients or membership.",
 ["saScore.go"], [("replace-worst insertion", "SAScore.Insert"), ("duplicate check", "SAScore.Exists")], [("WorstItem/BestItem", "extremes of Items", "SAScore")])
prop("C11", "Simulated annealing returns an evaluated, fitted local optimum",
 "For every dataset with at least six rows and every cost function, a simulated-annealing search terminates with a non-empty selection of fewer than half as many features as data points (ascending, with its least-squares coefficients), and with enough sweeps and no feature out of reach of the size limit considers every feature on the way (less than one sweep per temperature is taken as one). Every entry of its leaderboard is a distinct selection with its own coefficients and minus its cost (residual sum of squares floored at 1e-12), the best entry is the cheapest model the run evaluated, and with enough sweeps the returned selection cannot be improved by adding or removing one feature.",
 ["inputs", "schedules", "configurations"], "all datasets, random-number sequences, sweep counts and criteria",
 "One test with a fixed random seed and one exact-fit dataset; the leaderboard is never inspected.",
 ["simmulatedAnnealing.go", "saScore.go", "fit.go"], [("accept/reject loop", "SelectModelSA"), ("leaderboard insertion", "SAScore.Insert")], None, ["cost function argument", "reads of the design matrix"])
prop("C12", "AIC, AICc and BIC follow their definitions and stay finite",
 "For k features, n data points and residual sum of squares r, AIC is 2k + n log r, AICc adds 2k(k+1)/(n-k-1) (denominator 1 when k >= n-1) and BIC is k log n + n log r, where r below 1e-12 counts as 1e-12. All three are finite for every r >= 0 and strictly increase with k and (above the floor) with r, so an exactly fitting model never produces an infinite or NaN score anywhere.",
 ["inputs"], "all k >= 0, n >= 1, r >= 0 including exact fits",
 "One AIC value is tested; AICc's small-sample branch, BIC and exact fits are not.",
 ["criteria.go"], [("criteria", "Aic, Aicc, Bic"), ("floor on the residual", "RssTol")])
prop("C13", "Least-squares fits are optimal and of minimal norm",
 "For every design matrix whose singular values are zero or clearly above 1e-6, and every target, the fitted coefficients minimise the residual sum of squares (the residual is orthogonal to every column), and when the columns are linearly dependent or more numerous than the rows they are the minimiser of smallest norm. The result does not depend on the concrete matrix type passed in, and permuting columns or scaling the target permutes or scales the coefficients.",
 ["inputs"], "all well-scaled design matrices (tall, square, wide, rank-deficient) and targets, dense matrices and views",
 "Tests check four small systems with known integer solutions.",
 ["fit.go"], [("SVD solve with singular-value cut-off", "Fit")])
prop("C14", "Sub-designs, predictions and residuals are computed from the right data",
 "The design matrix of a model consists of exactly the selected columns in ascending order; predictions equal the matrix-vector product of design and coefficients (row by row for single points), and the residual sum of squares equals the sum of squared differences between prediction and data. Design matrices whose size does not match the coefficients or targets are rejected by a panic instead of producing a number.",
 ["inputs"], "all matrices (dense and views), models, coefficient vectors and targets of any size",
 "Tests use a handful of tiny matrices.",
 ["util.go", "fit.go", "sliceVec.go"], [("column extraction", "GetDesignMatrix"), ("prediction", "Predict, PredictOne, Rss")])
prop("C15", "Normalisation is exact and lasso paths are mapped back correctly",
 "Normalising a dataset gives every non-constant column (standard deviation above 1e-10) and the target zero mean and unit sample standard deviation, a constant first column becomes zero and is treated as the intercept, and any other constant column is rejected by a panic. Mapping a lasso path back to original units gives coefficients, with an added intercept at index 0 if there is an intercept column (of ones), whose predictions on the original data equal the de-normalised predictions of the normalised coefficients (up to a constant when there is no intercept column).",
 ["inputs"], "all datasets with and without an intercept column, all selections and coefficients",
 "One 3x2 normalisation is checked; the inverse mapping is only checked through one polynomial fit.",
 ["normalized_dataset.go", "lasso_lars.go", "util.go"], [("normalisation", "NewNormalizedData, NormalizeArray/Rows/Cols"), ("inverse", "Path2Unnormalized, LinearNormalizationTransformation, LinearTransformationBias")])
prop("C16", "Coordinate descent returns the lasso solution",
 "For every normalised dataset, regularisation strength, positive definite covariance estimate, start vector and sufficient iterations, the coefficients returned by lasso coordinate descent satisfy the optimality conditions of the lasso (or of the elastic net for a ridge correction smaller than the diagonal of the covariance) up to the tolerance: the gradient equals the strength times the sign for every non-zero coefficient and does not exceed the strength in magnitude for zero ones. An intercept column gets a zero coefficient, while a first column that is not constant is treated like every other feature.",
 ["inputs", "configurations"], "all datasets (correlated, wide, with and without intercept), strengths from none to all features selected, covariance estimators, corrections, start vectors",
 "Tests check one exact-fit polynomial; a feature wrongly dropped from the active set only matters for correlated data.",
 ["lassoCrdDesc.go", "lassoCorrections.go", "covarianceMatrix.go"], [("active-set iterations", "LassoCrdDesc"), ("re-activation check", "UnsatisfiedKKTConditions"), ("soft threshold", "SoftThreshold"), ("incremental covariance product", "UpdateCovDotBeta")])
prop("C17", "The parallel lasso path solves every strength once, in order",
 "The coordinate-descent path returns one node per requested strength in descending order of strength for an ascending list (without the leading nodes that select nothing, if any node selects something), each with exactly the non-zero coefficients in ascending feature order. Every node agrees, up to the tolerance, with solving that strength alone with an equal fresh correction, regardless of the number of strengths, how the workers interleave and which covariance or correction is shared.",
 ["inputs", "schedules", "configurations"], "all strength lists (1 to many), datasets, corrections and interleavings",
 "One test with 20 strengths checks only the last node.",
 ["lassoCrdDesc.go"], [("work distribution and result placement", "LassoCrdDescPath, PerformLassoCrd")])
prop("C18", "The LARS path is the exact piecewise-linear lasso path",
 "For every well-conditioned dataset the LARS path starts at the largest absolute feature-target product, its strengths strictly decrease, and every node down to the requested minimum satisfies the lasso optimality conditions with its listed features in ascending order. Between consecutive nodes the solution is the linear interpolation (so no knot is missing), and at equal strength it agrees with coordinate descent.",
 ["inputs"], "all well-conditioned datasets with and without intercept, features joining and leaving, more features than rows",
 "Tests check two polynomial datasets for monotone covariances and one final solution; features leaving the active set are not exercised.",
 ["lasso_lars.go", "lasso_cd.go"], [("join and crossing times", "tJoin, tCross, maxJoinTime, maxCrossTime"), ("segment parameters", "MorsePenroseCD"), ("loop", "LassoLars")], None, ["CDParam interface"])
prop("C19", "Lasso path summaries match the path they summarise",
 "The criterion values along a lasso path are, node by node, the criterion of the node's feature count and of its residual on the path's dataset (a node that selects nothing predicts zero); the coefficient trace of a feature is its coefficient (zero if absent) against the log10 strength at every node. The most relevant features are the distinct features in order of first appearance, ending with the node at which the requested number is reached, and the smallest and largest feature numbers are those that occur; the printed ranking lists the nodes with the smallest AICc, best first, each with its own strength, size and criteria.",
 ["inputs"], "all paths with ascending selections and their datasets, all requested numbers",
 "Tests check one relevance list and that the criterion slice has the right length.",
 ["lassoPlot.go", "lasso_lars.go", "util.go"], [("summaries", "GetCriteria, ExtractPath, PickMostRelevantFeatures, MaxMinFeatNo, LassoNodesSlice2SparsCoeff")])
prop("C20", "Nested lasso reports original features and leaves the data alone",
 "Nested lasso leaves the dataset it was given unchanged and returns it with the result; each path's selections are column numbers of the original design matrix with coefficients in original units, so that evaluating a node on the original data gives the de-normalised prediction of the lasso restricted to the features that survived so far. The first path is the plain LARS path, later paths only use features that survived (the most relevant keep-fraction of the previous round), wherever the target column is located. It ends when at most two features would be kept or a round removes none (also when nothing is selected at all, or everything is to be kept). The ranking printed for each round describes the nodes of that round.",
 ["inputs", "configurations"], "all datasets, target columns, positive keep fractions (also one and more), minimum strengths (also above the whole path)",
 "The single test only counts the paths, with the target in the last column.",
 ["nestedLasso.go", "csvIO.go", "lassoPlot.go"], [("feature elimination", "NestedLasso"), ("name-based mapping", "MapSelectionByName, FeatNoByName")])
prop("C21", "Covariance estimators return what they promise",
 "The empirical estimator returns X'X/n, the identity estimator the identity, the centred covariance the column covariance with divisor n, and the sparse estimator equals the empirical one with exactly the entries below its threshold in magnitude set to zero (others bit-identical) on every call, rejecting a different matrix by a panic. Applying a threshold operator never changes entries at or above the threshold, zeroes all others, and is idempotent.",
 ["inputs", "histories"], "all matrices, repeated and concurrent calls",
 "Tests check one 2x2 covariance, one 2x2 threshold, an identity of a zero matrix and that the sparse result is square.",
 ["covarianceMatrix.go", "thresholdCov.go"], [("estimators", "Empirical, Identity, SparseThresholded, CovarianceMatrix"), ("threshold", "ThresholdOperator.Apply")])
prop("C22", "The covariance threshold search averages every grid point over proper splits",
 "For every matrix with at least four rows and at least one sample, every random row split distributes all rows of the matrix over its two parts, each row exactly once, with the requested sizes, and repeated splits differ in the rows they put into each part. The threshold returned by the consistency search is the grid value exp(-10 + j*step) that minimises the norm difference between the thresholded covariance of the first part and the covariance of the second part, averaged over exactly the requested number of splits.",
 ["inputs", "schedules", "configurations"], "all matrices, sample counts, step sizes (fewer, equal or more grid points than workers), interleavings",
 "The test only checks that the search runs (its own TODO says so).",
 ["thresholdCov.go"], [("split", "RandomRowSplit"), ("grid bookkeeping", "L2ConsistentCovTO, PerformNormDiffWork, CalculateFNormDiff")], None, ["reads of the data matrix", "applying the returned operator to a probe matrix"])
prop("C23", "Cohen's kappa follows its definition",
 "For any two selections without repetitions out of N features, Cohen's kappa equals (observed agreement - chance agreement)/(1 - chance agreement) of the two yes/no ratings, is symmetric, never above 1, and exactly 1 if and only if the selections contain the same features. It is a finite number for every pair, including both empty and both complete, and does not depend on the order of the features in a selection.",
 ["inputs"], "all pairs of selections of all sizes, including empty and complete",
 "Three pairs are tested, and the complete-selection case passes although the result is NaN.",
 ["util.go"], [("contingency table", "CohenKappa")])
prop("C24", "Kappa sampling uses complementary halves and finds the most stable setting",
 "Each kappa sample splits all rows into two disjoint halves (sizes differing by at most one) and asks the target once per half; the estimate is the mean kappa over exactly the requested number of samples. A sequence evaluates every target exactly that often, never two halves of one target at the same time, and returns the hyper-parameters of the target with the largest mean kappa whenever that is positive; what it prints shows each target with its own mean kappa.",
 ["inputs", "schedules", "histories"], "all targets, sample counts, numbers of targets (below, at, above the worker count), interleavings",
 "Tests use a mock that ignores the row indices.",
 ["cohens_kappa.go", "lassoCrdDesc.go"], [("sampling", "GetCohensKappa"), ("work distribution", "CalculateCohenSequence, CohensKappaWorker")], None, ["CohensKappaTarget interface"])
prop("C25", "CSV files are read into the right names, features and target",
 "Reading a comma-separated file with a header yields the header fields as names, the target column (negative numbers count from the end) as target and all other columns in order as features, with every numeric field equal to its decimal value. Blanks around numbers, as in the documented example format, quoted fields, CRLF line ends and arbitrary read chunking do not change the result.",
 ["inputs"], "all well-formed numeric CSV texts, target columns -ncol..ncol-1, reader chunkings, sizes beyond any buffer",
 "One 2x3 file without blanks is tested with two target columns.",
 ["csvIO.go", "README.md"], [("parser", "ParseCSV, ReadCSV")])
prop("C26", "Saved datasets read back equal to six decimals",
 "Writing a dataset as CSV and reading it back with the same target column yields the same names, shape, target column and values up to the six decimals written, for any position of the target, any size and any names CSV quoting can represent, whether written to a file or to a writer. All rows have been handed to the writer when saving returns, and saving does not change the dataset.",
 ["inputs"], "all datasets (values, names, target positions, sizes beyond buffer sizes)",
 "One 2x2 dataset is written and compared with a string; nothing is read back.",
 ["csvIO.go"], [("writer", "Save, SaveHandle"), ("reader", "ParseCSV")])
prop("C27", "JSON encoding and decoding lose nothing",
 "Encoding a node, highscore list, dataset or lasso path to JSON and decoding it yields an equal object: same models, coefficients, levels, bounds, scores and order of a highscore list of any fill level, and bit-identical matrices, targets, names, strengths, coefficients, selections and criterion values. Anything a search on finite data produces can be encoded. Two nodes, and two lists, compare equal exactly when all of this content agrees (numbers to 1e-10).",
 ["inputs", "histories"], "all finite nodes, lists produced by any insertion history, datasets and paths, including empty and exactly fitted ones",
 "One node, a two-entry list and one path are tested with distinct scores.",
 ["node.go", "highscore.go", "csvIO.go", "lassoPlot.go"], [("custom marshalling", "Node/Highscore/Dataset MarshalJSON, UnmarshalJSON"), ("path loading", "LassoLarsPathFromBytes, LassoLarsPathFromJSON")])
prop("C28", "Dataset columns and names stay aligned",
 "For every dataset and target position the name of feature i is the header of the column it was read from, looking a feature up by its (unique) name inverts this, and a subset contains exactly the requested columns, in the requested order, with their names and the target (name and values) last. A copy equals the original and shares no memory with it, and equality distinguishes datasets differing in any value, shape or target column.",
 ["inputs"], "all datasets, target positions, feature lists",
 "Tests check five lookups and one one-column subset, and never compare subset names.",
 ["csvIO.go"], [("bookkeeping around the target column", "GetFeatName, FeatNoByName, GetSubset, Copy, IsEqual")])
prop("C29", "Orthogonal matching pursuit is greedy, monotone and truthful",
 "For every dataset without zero columns, the inclusion order lists distinct features, each being the one most correlated in magnitude with the residual of the least-squares fit on those before it. The returned coefficients are the least-squares fit on exactly the listed features (zero elsewhere), the residual never grows along the order, and the pursuit stops as soon as the root mean square residual is below the tolerance, no feature remains, or no remaining feature is correlated with the residual.",
 ["inputs"], "all designs and targets, tolerances, collinear columns",
 "Two exact-fit examples are tested.",
 ["orthogonalMatchingPursuit.go"], [("greedy loop", "Omp"), ("trimming of the order", "Omp")])
prop("C30", "Polynomial expansion contains every monomial exactly once",
 "The expanded matrix starts with the original columns and then contains each product of powers of the chosen columns with total degree between two and the maximum exactly once, each evaluated correctly in every row. The Cartesian product it is built from lists all tuples of the given length in lexicographic order without repetition, for any length.",
 ["inputs"], "all matrices, column counts, maximum powers, value lists and repetition counts",
 "Tests stop at two columns and three repetitions, where slices do not yet share memory.",
 ["lazyPowerMat.go", "util.go"], [("cartesian product", "IterProduct"), ("power table", "AddPowerSequence, GetCol, FullMatrix")])
prop("C31", "Pseudo-inverses, hat matrix and leave-one-out error are exact",
 "For every matrix whose singular values are clearly above or below the given tolerance, the pseudo-inverse satisfies the Moore-Penrose conditions and the other routine returns the pseudo-inverse of X'X. The hat matrix used for cross validation is the orthogonal projection onto the column space, and the cross-validation score of a least-squares fit equals the root mean square leave-one-out prediction error.",
 ["inputs"], "all tall, square and wide matrices with a clear singular-value gap; all targets",
 "One 2x2 inverse is tested, and the cross-validation test uses an exact fit where any formula gives zero.",
 ["util.go", "fit.go"], [("pseudo-inverse", "PseudoInverse, PseudoInverseXTX"), ("cross validation", "DenumMatrixGcv, Gcv")])
prop("C32", "Analyses do not modify the data, options or values they are given",
 "Branch and bound, exhaustive and annealing searches, orthogonal matching pursuit, fits, criteria, lasso solvers, covariance and threshold searches, path summaries, polynomial expansion, column rearrangement, weights and averages leave every matrix, target, option, start model, start vector, dataset and path passed to them bit-identical. Only operations documented as in-place (normalising, mapping a path back, thresholding, absolute values, uniting into the first list) write to their arguments.",
 ["inputs", "histories"], "all entry points and arguments; reusing the same arguments for several calls",
 "No test compares its arguments after a call.",
 ["optimize.go", "lassoCrdDesc.go", "nestedLasso.go", "util.go", "orthogonalMatchingPursuit.go", "simmulatedAnnealing.go", "fit.go"], [("copies before writing", "callers throughout")])
prop("C33", "Model weights and averaged coefficients are correct",
 "Model weights computed from criterion values are non-negative, sum to one, decrease with the criterion as exp(-difference) and do not change when a constant is added to all values, however large. Averaged coefficients are, feature by feature, the weighted sum over the models containing that feature, the full coefficient vector carries each coefficient at its feature and zero elsewhere, and a node's sparse form is its selection in ascending order with its coefficients.",
 ["inputs"], "all finite criterion values, weights and sparse coefficient lists of any length",
 "One example each.",
 ["util.go", "node.go"], [("weights", "WeightsFromAIC"), ("averages", "WeightedAveragedCoeff, FullCoeffVector, ToSparseCoeff")])
prop("C34", "The command line tools write complete, correct result files",
 "For every valid CSV file (at least six rows and three features for the searches), target column and option set, the branch-and-bound, annealing and lasso commands exit successfully and leave a complete JSON file at the given path that decodes to their result: models over the file's features with coefficients and scores that recompute from the file's data, the branch-and-bound file containing the AICc optimum first (with a positive cutoff, a model at most that much worse; with a negative cutoff also the other models within that distance, as far as the list holds them), and the lasso file holding the dataset as read, the path in original units and its criterion values. An existing output file is fully replaced. The nested-lasso and plotting tools likewise write what the library computes for the same options; the kappa tool reports every requested strength once as it finishes and once in a summary ordered by kappa, and the memory tool the number of largest nodes that fit into the given memory. Options left out take the values the help text gives (result files then lie in the working directory); options that cannot be understood (an unknown flag or command, a value of the wrong type, an unknown algorithm or covariance type) are reported and no file is written.",
 ["inputs", "configurations"], "all CSV files with at least six rows and three features, target columns, algorithms, covariance types, option values",
 "The commands have no tests at all.",
 ["cmd/bnb.go", "cmd/lasso.go", "cmd/sasearch.go", "cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-cohenlasso/main.go", "cmdDepreciated/goselect-mem/main.go", "cmdDepreciated/goselect-plotlasso/main.go"], [("commands", "findOptimalSolution, saSearch, lassoFit"), ("result files", "saveHighscoreList and json.Marshal")])
prop("C35", "Feature-set containers and index helpers agree with plain definitions",
 "The bit-packed feature set behaves like an array of booleans under any sequence of set, flip and read operations at any size; column, row and slice views read exactly the elements they index, also transposed and when used in products. Sorting and extremum indices, log-spaced grids, unions, selections, reordering of columns and other index helpers agree with their plain definitions for all inputs.",
 ["inputs", "histories"], "all sizes (around byte boundaries and beyond), operation sequences, index lists, with ties, negative and extreme values",
 "Tests use a few fixed small examples.",
 ["model.go", "subview.go", "sliceVec.go", "util.go", "orthogonalMatchingPursuit.go", "node.go"], [("bit arithmetic", "Model"), ("views", "IndexedColView, IndexedColVecView, SliceVec"), ("helpers", "Argsort, Argmin, Argmax, Logspace, UnionInt, Selected2Model, SelectedFeatures, RearrangeDense, ...")])
prop("C36", "Path plots draw every feature and every node",
 "The coefficient plot of a lasso path draws one trace for every feature up to the largest one occurring in the path, through the point (log10 strength, coefficient) of every node; the entrance plot shows one point for every selection event and a line through the first entrance of each feature; quality and deviation plots show one point per node at its AICc and log10 root mean square error (for paths of two or more nodes with non-zero residuals).",
 ["inputs"], "all paths with at least one selected feature and positive strengths",
 "The test only checks that plotting does not crash.",
 ["lassoPlot.go"], [("plots", "PlotPath, PlotEntranceTimes, PlotQualityScores, PlotDeviations")], None, ["rendering to a recording canvas"])
prop("C37", "Exhaustive search covers every non-empty model exactly once",
 "For every design matrix with p columns, exhaustive selection returns exactly the 2^p - 1 non-empty feature subsets, each once, with its least-squares coefficients and minus its AICc, sorted best first. In particular its best entry is the AICc optimum over all subsets.",
 ["inputs"], "all datasets with up to about a dozen columns, including more columns than rows and ties",
 "Two datasets with two and three columns are tested, comparing score lists only.",
 ["optimize.go", "node.go", "highscore.go"], [("tree enumeration", "BruteForceSelect, GetChildNode, isNewNode")])
prop("C38", "Damaged input files and failed writes are never passed over",
 "A CSV text whose rows do not all have as many fields as the header, that ends inside a row, has stray or unterminated quotes, no data row or not the requested target column, and a reader that fails at any byte, never yield a dataset. A JSON text that was cut, continued, holds a value of the wrong type, selects features that do not exist or gives a matrix the wrong number of values never decodes to a node, highscore list, dataset or lasso path. The tools end with a failure status on such files, without writing or changing any result file, and also when they cannot write their result.",
 ["inputs", "faults"], "all damages of these kinds at every position, all read errors at every byte, all tools",
 "No test reads a damaged file, and none has a failing reader or an unwritable output.",
 ["csvIO.go", "node.go", "highscore.go", "lassoPlot.go", "cmd/bnb.go", "cmd/lasso.go", "cmd/sasearch.go", "cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-plotlasso/main.go"], [("readers", "ParseCSV, ReadCSV"), ("decoders", "UnmarshalJSON of Node, Highscore and Dataset, LassoLarsPathFromBytes, LassoLarsPathFromJSON"), ("result files", "saveHighscoreList, saSearch, lassoFit, nestedLasso, saveFigure")])

prop("C39", "Arguments that do not fit together are rejected before anything happens",
 "Fits, residual sums, predictions, bounds, branch and bound, exhaustive and annealing searches and matching pursuits reject (by panicking in the caller) target or coefficient vectors of another length than the design matrix asks for; branch and bound also rejects fewer than three features and start models of another length. Models without features, coefficients that do not match a selection, weights that do not match the models, start vectors that are too short, feature names and numbers that do not exist and the transformation of an intercept are rejected too. A rejected call leaves everything it was given, result lists and progress reports included, unchanged and nothing running.",
 ["inputs", "configurations"], "all entry points, all wrong lengths, all names and numbers outside the valid ones, all matrix types",
 "No test passes an argument that does not fit.",
 ["fit.go", "optimize.go", "util.go", "lasso_lars.go", "lassoCrdDesc.go", "csvIO.go", "normalized_dataset.go", "orthogonalMatchingPursuit.go", "simmulatedAnnealing.go", "criteria.go", "subview.go", "sliceVec.go"], [("checks of lengths", "Fit, Rss, MulSlice, SelectModel, GetDesignMatrix, NewLassoLarsNode, WeightedAveragedCoeff"), ("look-ups", "FeatNoByName, GetSubset, Selected2Model, FullCoeffVector")])

prop("C40", "Calls can be made at the same time",
 "Any library calls that only share arguments they read (matrices, vectors, models, datasets, normalised data, covariance estimates, corrections, paths, finished highscore lists, files) can be made from several goroutines at once: there is no data race, and every call returns what it returns when it is made alone. Calls that draw random numbers return a valid result of their own arguments.",
 ["schedules", "inputs"], "all pairs and groups of calls, all interleavings, all arguments; estimators, kappa targets, lists being filled and progress reports belong to one call each",
 "The tests run one call at a time, so state that is kept between calls cannot show.",
 ["fit.go", "optimize.go", "util.go", "lasso_lars.go", "lassoCrdDesc.go", "csvIO.go", "nestedLasso.go", "lassoPlot.go", "thresholdCov.go", "cohens_kappa.go", "highscore.go", "node.go", "lazyPowerMat.go"], [("no state between calls", "all exported functions"), ("copies of shared corrections", "CLasso.clone in LassoCrdDesc"), ("locks", "SparseThresholded.Get, Highscore readers")])
prop("C41", "A finished call keeps nothing",
 "Any part of the library can be called any number of times in one process: once a call has returned, or has rejected its arguments, every file it opened is closed again (also when the file is damaged, or cannot be written), nothing refers to its arguments any more except its result, and the memory in use does not grow with the number of calls made.",
 ["histories", "faults"], "all entry points, any number of calls with ever new arguments, readable, damaged, missing and unwritable files",
 "Tests make a few calls per process and look at results only.",
 ["csvIO.go", "lassoPlot.go", "optimize.go", "fit.go", "util.go", "lasso_lars.go", "lasso_cd.go", "lassoCrdDesc.go", "nestedLasso.go", "thresholdCov.go", "covarianceMatrix.go", "cohens_kappa.go"], [("files", "ReadCSV, Save, LassoLarsPathFromJSON"), ("workers that end", "SelectModel, LassoCrdDescPath, CalculateCohenSequence, L2ConsistentCovTO"), ("no state between calls", "all exported functions")])
prop("C42", "Results belong to the caller",
 "What a call returns (coefficients, matrices, nodes, lists, datasets, selections, paths) shares no memory with the arguments, with the result of any other call or with anything the library keeps, and the nodes of a path, list or set of tuples share none with each other: writing to a result, or appending to a part of it, never changes another value, and the same call made afterwards returns the same as before. (Views, conversions documented to hand over slices, and containers that were given an object refer to it by design.)",
 ["inputs", "histories"], "all calls that return slices, matrices or structures, any writes and appends by the caller, all arguments",
 "Tests read results and do not write to them.",
 ["node.go", "optimize.go", "highscore.go", "fit.go", "util.go", "csvIO.go", "lasso_lars.go", "lassoCrdDesc.go", "nestedLasso.go", "covarianceMatrix.go", "thresholdCov.go", "lassoPlot.go", "lazyPowerMat.go", "model.go"], [("copies", "NewNode, GetChildNode, NewLassoLarsNode, Copy, GetSubset"), ("fresh results", "all exported functions")])
prop("C43", "Results do not depend on earlier calls",
 "What a call returns depends on its arguments alone: whatever the process did before it (other calls of any kind, the same call, calls with the same objects holding other values, calls that were rejected or that failed half-way because a matrix, callback, reader or writer failed), it returns what it returns as the first call of a new process, with any number of processors and in any working directory, locale and time zone. Calls that draw random numbers return a valid result of their own arguments.",
 ["histories", "inputs", "environments"], "all sequences of calls including failed ones, any reuse of objects, all arguments, any environment",
 "Every test starts from new objects and makes few calls; none continues after a call that failed.",
 ["fit.go", "optimize.go", "util.go", "lasso_lars.go", "lasso_cd.go", "lassoCrdDesc.go", "csvIO.go", "nestedLasso.go", "lassoPlot.go", "thresholdCov.go", "cohens_kappa.go", "highscore.go", "node.go", "lazyPowerMat.go", "covarianceMatrix.go"], [("no state between calls", "all exported functions"), ("factorisations", "MorsePenroseCD.SetActiveSet")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
