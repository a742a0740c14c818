#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "source/core/"

p("C01", "Options: every set either takes effect exactly or is rejected without a trace",
  "For every handle kind, setting an optional parameter through the public option setters either succeeds, after which the matching getter returns exactly that value, or is rejected with an error status (unknown name, wrong type, value outside the documented domain, wrong precision) and leaves every option as it was. Names and string values are matched after trimming/collapsing blanks and ignoring case, synonyms of a categorical value select the same behaviour, and string getters never write past the caller's buffer, reporting the needed length instead.",
  ["inputs", "histories"], "all registered options of all handle kinds and of the datastore, all values at and around every bound, all set/get sequences up to a depth",
  "tests set a handful of options to legal values; the domain boundary of every option in every sequence is never enumerated",
  [S+"utilities/options.hpp", S+"utilities/options_public.cpp", S+"utilities/basic_handle_options.hpp"],
  [("registry lookup, trimming and validation", S+"utilities/options.hpp")],
  ["da_options_set_*/da_options_get_*", "da_datastore_options_*"])

p("C02", "Handles: any call sequence gets a correct answer or a clean error",
  "On every kind of handle, in every order of calls (initialise, set options, set data, fit, predict/transform, query results, refresh, destroy), each call either does its documented job or returns the documented error status: wrong-kind handles, wrong precision, missing data and not-yet-computed models are all reported, never crash, and never return stale results. Changing the training data makes the model unavailable until it is fitted again. Changing an option after the fit either makes the model unavailable or leaves the answers of the fitted model, never a mixture; a nearest neighbours handle, which has no fit call, then either answers as a fresh handle with these options and data or refuses. Refitting a used handle gives the same results as fitting a fresh one with the same options and data.",
  ["histories"], "all call sequences up to a bounded depth over two training sets, two option values and all model handle kinds, in both precisions",
  "tests follow the happy path; orders such as fit, set new data, query results are sampled only in a few places",
  [S+"utilities/da_handle.cpp", S+"utilities/da_handle.hpp", S+"utilities/da_handle_public.cpp", S+"utilities/basic_handle.hpp", S+"utilities/basic_handle.cpp"],
  [("per-handle dispatch and model_trained / refresh flags", S+"utilities/basic_handle.hpp")],
  ["public C API status codes and results"])

p("C03", "Datastore: any operation sequence leaves exactly the table a reference gives",
  "After any sequence of datastore operations (loading columns or rows from arrays in either order, adding partial rows, horizontal concatenation, selection of rows and columns, removing rows or columns with missing data, labelling columns, setting elements, extraction), the rows, columns, labels and values seen by the caller are those of a plain in-memory table driven by the same operations. An operation that is not applicable is refused with an error and changes nothing.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over small tables with mixed column types",
  "the tests check a few fixed chains; interactions of partially loaded rows, concatenation and named selections need every order",
  [S+"data_management/data_store.hpp", S+"data_management/data_store.cpp", S+"data_management/data_store_public.cpp"],
  [("block list indexed by an interval map of columns", S+"data_management/data_store.hpp"), ("named row/column interval-set selections", S+"data_management/data_store.cpp")],
  ["da_data_* calls"], state=[("columns map", "which block holds each column", S+"data_management/data_store.hpp")])

p("C04", "Interval sets and maps behave as sets of integers and disjoint-range maps",
  "An interval set after any sequence of insertions and erasures of closed integer ranges contains exactly the integers those operations leave, kept as sorted, disjoint, non-adjacent ranges, and every query agrees with that set. An interval map accepts exactly the ranges that do not overlap stored ones, finds for every key the value of the range containing it, and iterates its ranges in order.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over all ranges of a small universe (including invalid ranges), explored to the full reachable state space",
  "the unit tests execute a few fixed insert/erase scripts",
  [S+"data_management/interval_set.hpp", S+"data_management/interval_set.cpp", S+"data_management/interval_map.hpp", S+"data_management/interval.hpp"],
  [("merge on insert, split on erase", S+"data_management/interval_set.cpp")], ["find/insert/erase and iteration"])

p("C05", "CSV: every text is split into the rows and fields its dialect defines",
  "Reading a CSV text yields, for every text and every combination of dialect options (delimiter, quoting, double quotes, escapes, comments, whitespace, line ends, skipped lines, header), exactly the rows, columns and field texts the dialect defines, or an error when rows have different lengths. The result does not depend on how the file's bytes happen to be split into read chunks, and no text makes the reader crash or read out of bounds.",
  ["inputs", "configurations"], "all texts up to a bounded length over an alphabet of the dialect's special characters, for each dialect option, and every split of a text into read chunks",
  "tests parse a few dozen files; state-machine corner cases need all short texts",
  [S+"csv/tokenizer.c", S+"csv/csv_reader.hpp", S+"csv/parser.hpp", S+"csv/read_csv.hpp"],
  [("tokenizer state machine", S+"csv/tokenizer.c")], ["da_read_csv_*", "da_data_load_from_csv + extraction"])

p("C06", "CSV: each field is converted to the number it spells or refused",
  "A numeric field read from CSV yields the value it spells (integers exactly over the full range, floating point correctly up to rounding, booleans from true/false spellings), honouring the decimal, thousands and exponent characters; anything else, including overflow, is reported as an error or stored as the documented missing value when missing data is permitted. Automatic type detection gives each column the narrowest type that represents all its fields, and never loses or alters a value.",
  ["inputs", "configurations"], "all short field texts over a numeric alphabet plus every integer-limit neighbour, for all target types and number options; all small tables of typed fields for detection",
  "tests read files of well-formed numbers",
  [S+"csv/char_to_num.hpp", S+"data_management/auto_detect_csv.hpp", S+"csv/csv_types.hpp", S+"csv/parser.hpp"],
  [("char_to_num", S+"csv/char_to_num.hpp"), ("type promotion while detecting", S+"data_management/auto_detect_csv.hpp")], ["da_read_csv_*", "da_data_load_from_csv"])

p("C07", "A saved and reloaded model answers exactly like the original",
  "For every model kind that can be saved, loading the saved file gives a model whose predictions, transforms and result queries are bit-for-bit those of the saved one (except the statistics of the optimization run of a linear model, which are not stored), whose options read back equal, which can be saved and loaded again without loss (the order of option records in the file does not matter), and which trains again on new data like the original; this holds for every option combination the model can be trained with. A load into a handle in use is refused and leaves it unchanged, an untrained model cannot be saved, and a model of one kind or precision does not answer as another.",
  ["configurations", "histories", "inputs"], "all savable model kinds, all option combinations of small option grids, all small data sets, both precisions, fresh and previously used target handles",
  "tests save and load one model per kind",
  [S+"utilities/model_persistence.cpp", S+"utilities/model_persistence.hpp"],
  [("per-class serialize/deserialize of members", S+"utilities/basic_handle.hpp")], ["da_handle_save_model/da_handle_load_model"])

p("C08", "No damaged, truncated or unwritable model file is accepted or crashes",
  "Loading any truncation of a model file fails with an error status, and loading a file with any single corrupted byte or length field either fails cleanly or gives a handle that can be inspected and destroyed: loading never crashes, hangs, reads out of bounds or allocates without limit. A save that cannot write all its bytes reports failure.",
  ["crash_points", "fault_sequences"], "every truncation point of every model file kind, every byte position times a set of corruptions, every failing write or read call",
  "one test feeds one negative length",
  [S+"utilities/model_persistence.cpp", S+"utilities/model_persistence.hpp"],
  [("checked reads and size validation", S+"utilities/model_persistence.cpp")], ["da_handle_load_model status"])

p("C09", "Running out of memory at any point is reported, never crashes or corrupts",
  "If any single memory allocation made inside a library call fails, that call returns an error status (memory error) without crashing, throwing across the C interface or leaking, and without leaving results that look valid. Afterwards the handle can be destroyed, or the same call can be repeated with memory available and then gives the normal result.",
  ["fault_sequences"], "every allocation point of representative calls of every algorithm family and of the datastore",
  "no test makes an allocation fail",
  [S+"utilities/da_vector.hpp", S+"utilities/basic_handle.cpp", S+"data_management/data_store.cpp", S+"utilities/da_handle_public.cpp"],
  [("std::bad_alloc handlers turning into da_status_memory_error", "source/core")], ["status codes", "allocation counters"])

p("C10", "Parallel regions: results do not depend on threads or schedule, and never race",
  "Every parallel algorithm gives the same answer as with one thread (exactly for discrete answers, up to summation order for floating point) for every number of threads and every interleaving of its threads. No two threads access the same memory concurrently without synchronisation when one of them writes, and no interleaving deadlocks.",
  ["schedules"], "all interleavings at synchronisation points up to a preemption bound, 1..3 threads, for a driver of each parallel region, with happens-before race detection on every memory access of each execution",
  "tests run with whatever schedule the OS gives, usually one thread",
  [S+"nearest_neighbors/kd_tree.cpp", S+"nearest_neighbors/ball_tree.cpp", S+"decision_forest/forest/decision_forest.cpp", S+"clustering/kmeans/kmeans.cpp", S+"metrics/partitioning_infrastructure.hpp", S+"dimension_reduction/tsne/barnes_hut.cpp"],
  [("OpenMP loops, tasks, critical and atomic sections", "source/core")], ["results of public calls under a controlled OpenMP runtime"])

p("C11", "k-nearest neighbours: every algorithm returns the true nearest points",
  "For every data set, query set, metric and k, the k-nearest-neighbour query returns for each query point k distinct training points whose distances are the k smallest, in ascending order with the true distance next to each index, whichever algorithm (brute force, k-d tree, ball tree), leaf size and storage order is selected. Queries with invalid k are refused.",
  ["inputs", "configurations"], "all small point sets on integer grids (with duplicates and ties), all algorithms, metrics, leaf sizes, k, orders, precisions",
  "tests use a few data sets; tree splits and pruning bugs need ties, duplicates and degenerate dimensions",
  [S+"nearest_neighbors/nearest_neighbors.cpp", S+"nearest_neighbors/kd_tree.cpp", S+"nearest_neighbors/ball_tree.cpp", S+"nearest_neighbors/binary_tree.cpp", S+"nearest_neighbors/nearest_neighbors_utils.hpp"],
  [("tree pruning bounds and bounded max-heap", S+"nearest_neighbors/binary_tree.cpp")], ["da_nn_kneighbors_*"])

p("C12", "Radius neighbours: exactly the points within the radius are returned",
  "For every data set, query set, metric and radius, the radius query returns for each query point exactly the training points whose distance does not exceed the radius, each once, with its true distance, sorted when sorting is requested (a ball tree may decide either way on a point whose distance equals the radius up to rounding); counts, offsets and index lists agree with each other. This holds for every algorithm, leaf size, storage order and precision.",
  ["inputs", "configurations"], "all small integer point sets with radii at, below and above every attainable distance, all algorithms and metrics",
  "tests use generic real data where no distance equals the radius",
  [S+"nearest_neighbors/radius_neighbors.cpp", S+"nearest_neighbors/radius_neighbors.hpp", S+"nearest_neighbors/kd_tree.cpp", S+"nearest_neighbors/ball_tree.cpp"],
  [("node bounds against the radius", S+"nearest_neighbors/binary_tree.cpp")], ["da_nn_radius_neighbors_*", "radius results"])

p("C13", "Neighbour-based predictions follow the votes and weights of the neighbours",
  "Classification by neighbours returns, for each query, class probabilities equal to the (uniform or inverse-distance) weighted share of each class among the neighbours, summing to one, and the label with the largest share (lowest class on a tie); regression returns the weighted mean of the neighbours' targets. Under distance weighting a neighbour at distance zero has weight one and any other the inverse of its distance; asking for more neighbours than there are training points is refused, and a radius query with no neighbours gets the configured outlier label.",
  ["inputs", "configurations"], "all small labelled point sets, all label assignments, both weightings, k-nearest and radius modes, all outlier settings",
  "tests compare a few data sets with stored values",
  [S+"nearest_neighbors/nearest_neighbors.cpp", S+"nearest_neighbors/radius_neighbors.cpp"],
  [("weights and vote accumulation", S+"nearest_neighbors/nearest_neighbors.cpp")], ["da_nn_classifier_*", "da_nn_regressor_*"])

p("C14", "DBSCAN labels are exactly the density-connected components",
  "For every data set, eps, min samples and metric, the core points reported are exactly the points with at least min-samples points within eps (themselves included), two core points share a label exactly when they are density-connected, every non-core point within eps of a core point gets the label of such a core point, and all others are labelled noise. Cluster and core counts agree with the labels, and the algorithm, leaf size and storage order chosen do not change the clustering.",
  ["inputs", "configurations"], "all small integer point sets, all attainable eps, all min samples, algorithms and metrics",
  "tests compare a few data sets with stored labels",
  [S+"clustering/dbscan/dbscan.cpp"], [("neighbour lists then cluster expansion", S+"clustering/dbscan/dbscan.cpp")], ["da_dbscan_compute_*, da_handle_get_result_*"])

p("C15", "k-means ends in a consistent clustering no worse than its start",
  "When k-means reports convergence (with tolerance zero), every point is labelled with a nearest returned centre, each non-empty cluster's centre is the mean of its points, the reported inertia is the sum of squared distances to the assigned centres and is not worse than that of the supplied starting centres, whichever algorithm is selected. Predict labels new points with a nearest centre, transform returns their distances to all centres, and results are reproducible for a fixed seed.",
  ["inputs", "configurations"], "all small integer point sets, all supplied starting centres drawn from them, all algorithms, cluster counts and orders",
  "tests check stored results on a few sets",
  [S+"clustering/kmeans/kmeans.cpp", S+"clustering/kmeans/kmeans_elkan.hpp", S+"clustering/kmeans/kmeans_lloyd.hpp", S+"clustering/kmeans/kmeans_macqueen.hpp", S+"clustering/kmeans/kmeans_hartigan_wong.hpp", S+"clustering/kmeans/kmeans_kernels.cpp"],
  [("bounds updates (Elkan) and blocked kernels", S+"clustering/kmeans")], ["da_kmeans_*"])

p("C16", "Decision tree: each tree is a valid greedy tree and predicts its leaf's majority",
  "A fitted classification tree respects its limits (depth, samples per node), each split chosen at a node is one that maximises the impurity decrease of the selected score over the allowed features and thresholds, and on training data prediction agrees with the majority class of the leaf a point falls in, with probabilities equal to the class shares of that leaf. Prediction, probabilities, log-probabilities and score agree with one another for every input, storage order, histogram mode and categorical handling.",
  ["inputs", "configurations"], "all small integer data sets with all label assignments, all scoring functions, depth and size limits, histogram and categorical modes",
  "tests compare accuracy on a few sets",
  [S+"decision_forest/tree/decision_tree.cpp", S+"decision_forest/tree/decision_tree_training_split.hpp", S+"decision_forest/tree/decision_tree_training_partition.hpp", S+"decision_forest/tree/decision_tree_inference.hpp", S+"decision_forest/common/idx_sorting.cpp", S+"decision_forest/common/scoring.cpp", S+"decision_forest/common/histogram.cpp"],
  [("sorted scan of split candidates with incremental class counts", S+"decision_forest/tree/decision_tree_training_split.hpp")], ["da_tree_*"])

p("C17", "Random forest: the vote of its trees, reproducible from its seed",
  "A forest's class probabilities are valid distributions equal to the average of its trees' probabilities, its predicted label is a class most of its trees vote for, its score is the accuracy of its own predictions, and one tree trained on all samples with all features predicts exactly as a decision tree with the same settings. The same seed gives the same forest whatever the block size, storage order, number of threads or repetition.",
  ["inputs", "configurations"], "all small data sets and label assignments, small forests, all sampling and feature modes, several seeds",
  "tests check accuracy on a few sets",
  [S+"decision_forest/forest/decision_forest.cpp", S+"decision_forest/forest/decision_forest_training.hpp", S+"decision_forest/forest/decision_forest_inference.hpp"],
  [("per-tree seeds and bootstrap samples", S+"decision_forest/forest/decision_forest_training.hpp")], ["da_forest_*"])

p("C18", "Linear models: returned coefficients are optimal for the stated objective",
  "For every regression problem that is accepted, the coefficients returned by any applicable solver satisfy the optimality conditions of the documented objective (least squares, ridge, lasso, elastic net, logistic loss) with the chosen scaling and intercept, so all solvers agree whenever the optimum is unique. Predictions are the linear (or softmax) function of those coefficients, the reported loss is the objective's value, and storage order changes nothing.",
  ["inputs", "configurations"], "all small integer design matrices of every shape class (tall, square, wide) and responses, all solvers, penalties, scalings, intercept settings and orders",
  "tests compare stored solutions for a few problems",
  [S+"linear_model/linear_model.cpp", S+"linear_model/linmod_qr.cpp", S+"linear_model/linmod_svd.cpp", S+"linear_model/linmod_cholesky.cpp", S+"linear_model/linmod_cg.cpp", S+"linear_model/linmod_nln_optim.cpp", S+"optimization/coord.hpp", S+"drivers/lbfgsb_driver.hpp", "external/Lbfgsb.3.0/lbfgsb.F90"],
  [("scaling and its reversal on the coefficients", S+"linear_model/linear_model.cpp"), ("solver selection", S+"linear_model/linear_model.cpp")], ["da_linmod_*"])

p("C19", "PCA: components, scores and variances are those of the data matrix",
  "Fitted principal components are orthonormal, ordered by decreasing variance and deterministic in sign, the variances, singular values, means and total variance are those of the (centred or standardised) data, and the scores are the data's projections. Transform of the training data gives the scores, inverse transform undoes transform on the retained subspace (exactly with all components), and every solver and storage order gives the same answer.",
  ["inputs", "configurations"], "all small integer matrices of every shape class, all methods, solvers, component counts, whitening and orders",
  "tests compare a few stored decompositions",
  [S+"factorization/pca/pca.cpp", S+"utilities/da_randsvd.hpp", S+"utilities/da_qr.hpp", S+"utilities/da_syrk.hpp"],
  [("centring, SVD/eigen solve, sign flip", S+"factorization/pca/pca.cpp")], ["da_pca_*"])

p("C20", "SVM: the returned model satisfies the dual optimality conditions",
  "The dual coefficients of a trained support vector machine (C- and nu-, classification and regression) are feasible for the documented constraints and satisfy the optimality conditions within the tolerance, support vectors are exactly the points with non-zero coefficients, and support counts per class add up. Decision values equal the kernel expansion over the support vectors plus bias, and predicted classes, probabilities and scores agree with them for any number of classes, kernel and storage order.",
  ["inputs", "configurations"], "all small integer data sets with all label assignments, all kernels and problem types, several C/nu/epsilon values, both decision shapes and orders",
  "tests compare a few stored models",
  [S+"svm/svm.cpp", S+"svm/base_svm.cpp", S+"svm/c_svm.cpp", S+"svm/nu_svm.cpp", S+"svm/svm_kernels.cpp", S+"utilities/da_cache.hpp"],
  [("working set selection, inner SMO, kernel cache", S+"svm/base_svm.cpp")], ["da_svm_*"])

p("C21", "Cubic splines interpolate their data and are smooth with the stated ends",
  "For every valid set of sites and values and every spline kind, the fitted piecewise cubic takes the given values at the sites, is once and (where the kind promises) twice continuously differentiable, honours its end conditions, and each evaluation, for any order of derivative and any evaluation points, equals the value of that piecewise polynomial. Sites that are not strictly increasing are refused, evaluation points outside follow the documented extrapolation, and uniform and explicit sites, several right-hand sides and storage orders agree.",
  ["inputs", "configurations", "histories"], "all small integer site and value sets, all spline kinds and boundary conditions, evaluation at sites, midpoints and outside, all derivative orders, all set-up orders",
  "tests evaluate a few splines",
  [S+"interpolation/interpolation.cpp", S+"interpolation/cubic_spline/cubic_spline.cpp", S+"interpolation/interpolation_public.cpp"],
  [("tridiagonal solves, interval search", S+"interpolation/cubic_spline/cubic_spline.cpp")], ["da_interpolation_*"])

p("C22", "Basic statistics equal their mathematical definitions",
  "Means, variances, skewness, kurtosis, central moments, quantiles, five-point summaries, covariance and correlation matrices, standardisation and shifts equal their textbook definitions over the chosen axis (rows, columns, all), degrees of freedom and quantile type, for every matrix, storage order and leading dimension. Undefined cases are reported or give the documented value, inputs declared const are unchanged and nothing outside the output region is written.",
  ["inputs", "configurations"], "all small integer matrices, all axes, orders, paddings, quantile types and dof values",
  "tests compare a few stored matrices",
  [S+"basic_statistics/moment_statistics.cpp", S+"basic_statistics/order_statistics.cpp", S+"basic_statistics/correlation_and_covariance.cpp", S+"basic_statistics/statistical_utilities.cpp", S+"basic_statistics/basic_statistics_public.cpp", S+"basic_statistics/row_to_col_major.cpp"],
  [("blocked row-major kernels and selection", S+"basic_statistics/order_statistics.cpp")], ["da_mean_* … da_correlation_matrix_*"])

p("C23", "Pairwise distances and kernel matrices equal their definitions",
  "Every pairwise distance (Euclidean, squared Euclidean, Manhattan, Minkowski, cosine, inner product) and every kernel function (linear, polynomial, RBF, sigmoid) matrix has at entry (i,j) the value of its definition for row i of the first and row j of the second matrix, or of the same matrix when only one is given, for every shape, storage order and leading dimension. Self-distances are exactly zero where the metric says so, results are symmetric for one matrix, and nothing outside the output region is written.",
  ["inputs", "configurations"], "all small integer matrices and every size through the kernels' unrolling and blocking boundaries, all metrics, orders and paddings",
  "tests use a few shapes; remainders of unrolled kernels need every size",
  [S+"metrics/pairwise_distances.cpp", S+"metrics/euclidean_distance.cpp", S+"metrics/manhattan_distance.cpp", S+"metrics/minkowski_distance.cpp", S+"metrics/cosine_distance.cpp", S+"metrics/inner_product_distance.cpp", S+"metrics/euclidean_gemm_distance.cpp", S+"metrics/kernels_avx2.cpp", S+"kernel_functions/kernel_functions.cpp", S+"kernel_functions/kernel_functions_simd.cpp", S+"metrics/partitioning_infrastructure.hpp"],
  [("tiled SIMD kernels with edge handling", S+"metrics/partitioning_infrastructure.hpp")], ["da_pairwise_distances_*", "da_*_kernel_*"])

p("C24", "Train/test split partitions the rows exactly, stratified when asked",
  "Splitting sends every selected row to exactly one of the train and test outputs with the requested sizes, without loss, duplication or mixing of columns, for every order, leading dimension and element type, whether driven by given or default indices. Shuffled indices are a permutation determined by the seed, stratified splits give each class its proportional share (the training part of all rows, the test part of the rows that remain, each off by less than one row), and impossible requests are refused.",
  ["inputs", "configurations"], "all small sizes, all train/test sizes, all class assignments, shuffle modes, seeds and layouts",
  "tests split a few arrays",
  [S+"utilities/train_test_split.cpp", S+"utilities/train_test_split_internal.hpp", S+"utilities/utils_public.cpp"],
  [("index generation and gather", S+"utilities/train_test_split.cpp")], ["da_get_shuffled_indices_*", "da_train_test_split_*"])

p("C25", "Nonlinear least squares stops only at a stationary point or says why",
  "When the nonlinear least-squares solver reports success, the returned point respects the given bounds, its objective is not worse than the start's, and it is first-order stationary within the requested tolerances; otherwise the status says why it stopped and iteration limits are respected. Whatever the user callbacks answer at any call, including requests to stop, failures or missing derivatives, the solver terminates with a status and never crashes or evaluates outside the bounds.",
  ["inputs", "configurations", "fault_sequences"], "small residual families from all integer starting points and bound boxes, all model/method options, storage orders, and a failure answer at every callback call",
  "tests solve a few named problems",
  [S+"nlls/nlls.cpp", S+"drivers/ralfit_driver.hpp", "external/RALFit/libRALFit/src/ral_nlls_internal.F90"],
  [("trust region iteration with bounds projection", "external/RALFit/libRALFit/src")], ["da_nlls_*"])

p("C26", "Bounded optimiser: feasible, never uphill, stationary when it says so",
  "The limited-memory quasi-Newton optimiser keeps every point it evaluates inside the given bounds, returns a point no worse than its start, and when it reports success that point satisfies the projected-gradient condition within tolerance. Infeasible bounds, callback failures and iteration or time limits end it with the corresponding status.",
  ["inputs", "configurations", "fault_sequences"], "all small integer quadratic and quartic objectives, starts and bound boxes, and a failing callback at every call",
  "tests solve a few problems",
  ["external/Lbfgsb.3.0/lbfgsb.F90", S+"drivers/lbfgsb_driver.hpp", S+"optimization/optimization.cpp"],
  [("projected search and reverse communication", "external/Lbfgsb.3.0/lbfgsb.F90")], ["optimizer results"])

p("C27", "t-SNE gives a finite, reproducible embedding that lowers its objective",
  "For every accepted data set and option setting, the t-SNE embedding is finite, has the requested shape, is reproducible for a given seed and initialisation and is independent of the storage order, and its reported divergence is that of the returned embedding for the exact method. Invalid settings (such as a perplexity not smaller than the number of samples) are refused.",
  ["inputs", "configurations"], "all small point sets, both the exact and tree-approximated methods, all initialisations, dimensions and orders",
  "tests embed a few data sets",
  [S+"dimension_reduction/tsne/tsne.cpp", S+"dimension_reduction/tsne/barnes_hut.cpp", S+"dimension_reduction/tsne/tsne_kernels.cpp"],
  [("perplexity search, tree forces, momentum descent", S+"dimension_reduction/tsne/tsne.cpp")], ["da_tsne_*"])

p("C28", "Approximate neighbours: exact when all lists are probed, and adds accumulate",
  "With all inverted lists probed, the approximate index returns exactly the true k nearest of all vectors added so far, with true distances, for every metric; with fewer lists probed it returns the true nearest within those lists whose centres are closest to the query. Each added vector is stored in the list of a nearest centre, successive additions number vectors consecutively, and training again empties the index.",
  ["inputs", "histories", "configurations"], "all small point sets, list and probe counts, metrics, k, and all orders of train, add, set options and query up to a depth",
  "tests check a few data sets",
  [S+"approximate_neighbors/approximate_neighbors.cpp"],
  [("k-means lists and per-list scan with heap", S+"approximate_neighbors/approximate_neighbors.cpp")], ["da_approx_nn_*"])

p("C29", "Kernel PCA projects onto the eigenvectors of the centred kernel matrix",
  "Kernel PCA returns the leading eigenvalues and eigenvectors of the centred kernel matrix, in decreasing order and with deterministic signs; the fitted scores and the transform of the training data agree with them and new points are projected with the training centring. All kernels including a precomputed one, all solvers and both storage orders agree, and with a linear kernel the scores are those of ordinary PCA up to sign.",
  ["inputs", "configurations"], "all small integer matrices, all kernels, component counts, solvers and orders",
  "tests compare a few stored results",
  [S+"factorization/kernel_pca/kernel_pca.cpp", S+"kernel_functions/kernel_functions.cpp"],
  [("double centring and eigen solve", S+"factorization/kernel_pca/kernel_pca.cpp")], ["da_kernel_pca_*"])

p("C30", "The row cache serves the data last stored and evicts the least recently used",
  "The bounded cache of matrix rows returns, for every key, either nothing or exactly the data last stored under that key, never holds more than its capacity, and evicts the least recently used entries first, for any sequence of lookups and insertions including repeated keys and batches larger than the capacity.",
  ["histories"], "all sequences of lookup and batch insertion over a few keys, to the full reachable state space for several capacities",
  "the unit tests only look at capacity and emptiness",
  [S+"utilities/da_cache.hpp"], [("linked list plus map", S+"utilities/da_cache.hpp")], ["get/put results"])

p("C31", "The growable numeric vector behaves as a plain array list",
  "After any sequence of appends, bulk appends, push-backs, resizes, clears, copies and moves the growable vector contains exactly the elements an ordinary array list would, at stable indices, with its size never exceeding its capacity and without memory errors or leaks.",
  ["histories"], "all operation sequences up to a bounded depth around the capacity boundaries, for every element type",
  "unit tests append a few elements",
  [S+"utilities/da_vector.hpp"], [("capacity doubling and memcpy", S+"utilities/da_vector.hpp")], ["element access"])

p("C33", "Invalid arguments are refused with the right status and touch nothing",
  "Every public computational call refuses null pointers, negative or zero sizes, too small leading dimensions, inconsistent feature counts and out-of-range enumerations with an error status, for each argument individually and in combination, never reading or writing through them, and leaves the caller's outputs as they were. A leading dimension is accepted exactly when it is at least the stored extent for the storage order in use, and NaN inputs are reported when data checking is on.",
  ["inputs"], "for every public call, every single and paired replacement of a valid argument by each invalid one, in both storage orders and precisions",
  "tests cover chosen arguments of chosen calls",
  [S+"utilities/da_utils.cpp", S+"utilities/basic_handle.cpp", S+"utilities/utils_public.cpp", S+"basic_statistics/basic_statistics_public.cpp", S+"metrics/pairwise_distances_public.cpp", S+"kernel_functions/kernel_functions_public.cpp"],
  [("check_1D_array/check_2D_array and public wrappers", S+"utilities/basic_handle.cpp")], ["status codes and output buffers"])

p("C34", "Storage order and padding never change an answer or reach outside the data",
  "For every algorithm, giving the same data in row-major or column-major order and with any legal leading dimension gives the same results (laid out in the chosen order), padding in inputs is never read as data and padding in outputs is never written, and converting an array's order twice returns it unchanged.",
  ["inputs", "configurations"], "all storage orders times paddings of every array argument for every public computational call, over all small shapes",
  "tests run mostly column-major with tight leading dimensions",
  [S+"utilities/basic_handle.cpp", S+"utilities/da_utils.cpp", S+"utilities/utils_public.cpp"],
  [("store_2D_array / copy_2D_results_array, switch_order_*", S+"utilities/da_utils.cpp")], ["public C API"])

p("C35", "Result queries report sizes and never overrun or mix up results",
  "Every result query on every handle kind returns the requested result in full when the array is large enough, and otherwise refuses, states the size needed and leaves the array untouched; results not available for the model or its state are refused. Repeating a query gives the same answer and never alters the model, and the row/column counts in the reported model information match what was fitted.",
  ["histories", "configurations"], "all handle kinds, all result identifiers, all declared sizes from zero past the needed size, before and after fitting",
  "tests query the results they know with the right sizes",
  [S+"utilities/da_handle_public.cpp", S+"utilities/basic_handle.hpp", S+"linear_model/linear_model.cpp", S+"factorization/pca/pca.cpp", S+"clustering/kmeans/kmeans.cpp"],
  [("per-class get_result", S+"utilities/basic_handle.hpp")], ["da_handle_get_result_*"])

p("C36", "Every instruction-set variant gives the same answers",
  "Selecting any instruction-set variant the build offers and the machine supports gives the same discrete answers and floating-point answers equal up to rounding for every algorithm and input, and switching variants between calls on refreshed handles is safe.",
  ["configurations", "inputs"], "the same bounded inputs driven through all variants, including every size across vector-width remainders",
  "tests run with the one variant the machine selects",
  [S+"dynamic_dispatch/context.cpp", S+"dynamic_dispatch/dynamic_dispatch.hpp", S+"metrics/kernels_avx512.cpp", S+"metrics/kernels_avx2.cpp", S+"clustering/kmeans/kmeans_kernels.cpp"],
  [("runtime dispatch", S+"dynamic_dispatch/dynamic_dispatch.hpp")], ["public C API under each variant"])

p("C37", "Index sorting and bucketing order samples exactly by feature value",
  "Sorting a range of sample indices by feature value (heap sort, bucket sort, or any method selected) gives a permutation of that range in non-decreasing value order and leaves everything outside the range as it was, and compressing sample indices keeps exactly the drawn samples with their multiplicities.",
  ["inputs"], "all small arrays, ranges and index permutations, with duplicates and negative values",
  "unit tests sort a few arrays",
  [S+"decision_forest/common/idx_sorting.cpp", S+"decision_forest/tree/decision_tree_training_partition.hpp"],
  [("in-place heap sort and bucket counting", S+"decision_forest/common/idx_sorting.cpp")], ["sorted index arrays"])

p("C38", "Half-precision conversion rounds correctly and round-trips",
  "Converting between 16-bit and 32-bit floating point is exact for every 16-bit value (infinities and NaNs included), rounds every 32-bit value to the nearest 16-bit value with ties to even, overflows to infinity and keeps subnormals and signs. The half-precision vector and matrix helpers return the exact result whenever it is representable.",
  ["inputs"], "all 65536 half values and all floats at, next to and halfway between consecutive halves",
  "tests convert a few values",
  [S+"utilities/fp16_helpers.cpp", S+"utilities/fp16_helpers.hpp"], [("bit conversion", S+"utilities/fp16_helpers.cpp")], ["conversion helpers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
