{da_handle_linmod, "mixed precision", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_linmod, "optim method", 's', 0, "auto", 0, 0, 0, 0, {"auto", "bfgs", "cg", "chol", "cholesky", "coord", "lbfgs", "lbfgsb", "qr", "sparse_cg", "svd"}},
{da_handle_linmod, "low precision convergence tol", 'r', 0.001, "", 0.0, 2, 0, 0, {}},
{da_handle_linmod, "scaling", 's', 0, "auto", 0, 0, 0, 0, {"auto", "centering", "no", "none", "scale", "scale only", "standardise", "standardize"}},
{da_handle_linmod, "print options", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_linmod, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_linmod, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_linmod, "optim dual gap tol", 'r', 0.0001, "", 0.0, 1, 0, 0, {}},
{da_handle_linmod, "print level", 'i', 0.0, "", 0.0, 2, 5.0, 2, {}},
{da_handle_linmod, "optim convergence tol", 'r', 0.0001, "", 0.0, 1, 1.0, 1, {}},
{da_handle_linmod, "intercept", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_linmod, "optim iteration limit", 'i', 10000.0, "", 1.0, 2, 0, 0, {}},
{da_handle_linmod, "low precision iteration limit", 'i', 5000.0, "", 1.0, 2, 0, 0, {}},
{da_handle_linmod, "optim progress factor", 'r', NAN, "", 0.0, 2, 0, 0, {}},
{da_handle_linmod, "alpha", 'r', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_linmod, "optim coord skip min", 'i', 2.0, "", 2.0, 2, 0, 0, {}},
{da_handle_linmod, "optim coord skip max", 'i', 100.0, "", 10.0, 2, 0, 0, {}},
{da_handle_linmod, "debug", 'i', 0.0, "", 0.0, 2, 3.0, 2, {}},
{da_handle_linmod, "logistic constraint", 's', 0, "ssc", 0, 0, 0, 0, {"reference category", "rsc", "ssc", "symmetric", "symmetric side"}},
{da_handle_linmod, "optim time limit", 'r', 1000000.0, "", 0.0, 1, 0, 0, {}},
{da_handle_linmod, "lambda", 'r', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_pca, "power normalization", 's', 0, "qr", 0, 0, 0, 0, {"lu", "none", "qr"}},
{da_handle_pca, "power iterations", 'i', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_pca, "degrees of freedom", 's', 0, "unbiased", 0, 0, 0, 0, {"biased", "unbiased"}},
{da_handle_pca, "pca method", 's', 0, "covariance", 0, 0, 0, 0, {"correlation", "covariance", "svd"}},
{da_handle_pca, "whiten", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_pca, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_pca, "store u", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_pca, "n_components", 'i', 1.0, "", 0.0, 2, 0, 0, {}},
{da_handle_pca, "svd solver", 's', 0, "auto", 0, 0, 0, 0, {"auto", "gesdd", "gesvd", "gesvdx", "randomized", "syevd"}},
{da_handle_pca, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_pca, "n_oversamples", 'i', 10.0, "", 0.0, 2, 0, 0, {}},
{da_handle_pca, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_kmeans, "low precision convergence tolerance", 'r', 0.01, "", 0.0, 2, 0, 0, {}},
{da_handle_kmeans, "convergence tolerance", 'r', 0.0001, "", 0.0, 2, 0, 0, {}},
{da_handle_kmeans, "normalize data", 's', 0, "yes", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kmeans, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_kmeans, "n_init", 'i', 10.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kmeans, "low precision max_iter", 'i', 200.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kmeans, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kmeans, "max_iter", 'i', 300.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kmeans, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_kmeans, "initialization method", 's', 0, "k-means++", 0, 0, 0, 0, {"afk-mc2", "k-means++", "random", "random partitions", "supplied"}},
{da_handle_kmeans, "algorithm", 's', 0, "lloyd", 0, 0, 0, 0, {"elkan", "hartigan-wong", "lloyd", "macqueen"}},
{da_handle_kmeans, "mixed precision", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kmeans, "n_clusters", 'i', 1.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kmeans, "afk-mc2 samples", 'i', 50.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kmeans, "distance", 's', 0, "euclidean", 0, 0, 0, 0, {"cosine", "euclidean"}},
{da_handle_kmeans, "empty clusters", 's', 0, "ignore", 0, 0, 0, 0, {"error", "ignore", "split"}},
{da_handle_dbscan, "power", 'r', 2.0, "", 0.0, 2, 0, 0, {}},
{da_handle_dbscan, "metric", 's', 0, "euclidean", 0, 0, 0, 0, {"cityblock", "cosine", "euclidean", "l1", "l2", "manhattan", "minkowski", "sqeuclidean"}},
{da_handle_dbscan, "algorithm", 's', 0, "auto", 0, 0, 0, 0, {"auto", "ball tree", "brute", "kd tree"}},
{da_handle_dbscan, "leaf size", 'i', 30.0, "", 1.0, 2, 0, 0, {}},
{da_handle_dbscan, "eps", 'r', 0.0001, "", 0.0, 2, 0, 0, {}},
{da_handle_dbscan, "min samples", 'i', 5.0, "", 1.0, 2, 0, 0, {}},
{da_handle_dbscan, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_dbscan, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_decision_tree, "maximum bins", 'i', 256.0, "", 2.0, 2, 65535.0, 2, {}},
{da_handle_decision_tree, "histogram", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_tree, "category split strategy", 's', 0, "ordered", 0, 0, 0, 0, {"one-vs-all", "ordered"}},
{da_handle_decision_tree, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_decision_tree, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_tree, "feature threshold", 'r', 1e-05, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_tree, "node minimum samples", 'i', 2.0, "", 1.0, 2, 0, 0, {}},
{da_handle_decision_tree, "predict probabilities", 's', 0, "yes", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_tree, "detect categorical data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_tree, "scoring function", 's', 0, "gini", 0, 0, 0, 0, {"cross-entropy", "entropy", "gini", "misclass", "misclassification", "misclassification-error"}},
{da_handle_decision_tree, "maximum depth", 'i', 29.0, "", 0.0, 2, 29.0, 2, {}},
{da_handle_decision_tree, "seed", 'i', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_decision_tree, "maximum features", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_tree, "minimum split score", 'r', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_decision_tree, "category tolerance", 'r', 1e-05, "", 0.0, 2, 1.0, 1, {}},
{da_handle_decision_tree, "maximum categories", 'i', 50.0, "", 2.0, 2, 0, 0, {}},
{da_handle_decision_tree, "minimum impurity decrease", 'r', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_forest, "maximum tree threads", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_forest, "category split strategy", 's', 0, "ordered", 0, 0, 0, 0, {"one-vs-all", "ordered"}},
{da_handle_decision_forest, "maximum bins", 'i', 256.0, "", 2.0, 2, 65535.0, 2, {}},
{da_handle_decision_forest, "histogram", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_forest, "feature threshold", 'r', 1e-05, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_forest, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_decision_forest, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_forest, "minimum split score", 'r', 1e-05, "", 0.0, 2, 1.0, 2, {}},
{da_handle_decision_forest, "maximum features", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_forest, "number of trees", 'i', 100.0, "", 1.0, 2, 0, 0, {}},
{da_handle_decision_forest, "seed", 'i', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_decision_forest, "node minimum samples", 'i', 2.0, "", 1.0, 2, 0, 0, {}},
{da_handle_decision_forest, "maximum depth", 'i', 29.0, "", 0.0, 2, 29.0, 2, {}},
{da_handle_decision_forest, "scoring function", 's', 0, "gini", 0, 0, 0, 0, {"cross-entropy", "entropy", "gini", "misclass", "misclassification", "misclassification-error"}},
{da_handle_decision_forest, "minimum impurity decrease", 'r', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_decision_forest, "block size", 'i', 256.0, "", 1.0, 2, 0, 0, {}},
{da_handle_decision_forest, "features selection", 's', 0, "sqrt", 0, 0, 0, 0, {"all", "custom", "log2", "proportion", "sqrt"}},
{da_handle_decision_forest, "bootstrap", 's', 0, "yes", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_decision_forest, "bootstrap samples factor", 'r', 1.0, "", 0.0, 1, 1.0, 2, {}},
{da_handle_decision_forest, "proportion features", 'r', 0.1, "", 0.0, 1, 1.0, 2, {}},
{da_handle_nlls, "ralfit model", 's', 0, "hybrid", 0, 0, 0, 0, {"gauss-newton", "hybrid", "quasi-newton", "tensor-newton"}},
{da_handle_nlls, "print level", 'i', 1.0, "", 0.0, 2, 5.0, 2, {}},
{da_handle_nlls, "derivative test tol", 'r', 0.0001, "", 0.0, 1, 10.0, 2, {}},
{da_handle_nlls, "ralfit iteration limit", 'i', 100.0, "", 1.0, 2, 0, 0, {}},
{da_handle_nlls, "lbfgsb memory limit", 'i', 11.0, "", 1.0, 2, 1000.0, 2, {}},
{da_handle_nlls, "lbfgsb iteration limit", 'i', 10000.0, "", 1.0, 2, 0, 0, {}},
{da_handle_nlls, "coord iteration limit", 'i', 100000.0, "", 1.0, 2, 0, 0, {}},
{da_handle_nlls, "monitoring frequency", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_nlls, "check derivatives", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_nlls, "ralfit nlls method", 's', 0, "galahad", 0, 0, 0, 0, {"aint", "galahad", "linear solver", "more-sorensen", "powell-dogleg"}},
{da_handle_nlls, "optim method", 's', 0, "ralfit", 0, 0, 0, 0, {"bfgs", "coord", "lbfgs", "lbfgsb", "ralfit"}},
{da_handle_nlls, "ralfit convergence step size", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "coord restart", 'i', NAN, "", 0.0, 2, 0, 0, {}},
{da_handle_nlls, "ralfit convergence rel tol grd", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "coord skip max", 'i', 100.0, "", 10.0, 2, 0, 0, {}},
{da_handle_nlls, "coord skip min", 'i', 2.0, "", 2.0, 2, 0, 0, {}},
{da_handle_nlls, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_nlls, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_nlls, "ralfit globalization method", 's', 0, "trust-region", 0, 0, 0, 0, {"reg", "regularization", "tr", "trust-region"}},
{da_handle_nlls, "ralfit convergence abs tol fun", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "print options", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_nlls, "debug", 'i', 0.0, "", 0.0, 2, 3.0, 2, {}},
{da_handle_nlls, "regularization term", 'r', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_nlls, "finite differences step", 'r', NAN, "", 0.0, 1, 10.0, 1, {}},
{da_handle_nlls, "lbfgsb convergence tol", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "lbfgsb progress factor", 'r', NAN, "", 0.0, 2, 0, 0, {}},
{da_handle_nlls, "regularization power", 's', 0, "quadratic", 0, 0, 0, 0, {"cubic", "quadratic"}},
{da_handle_nlls, "infinite bound size", 'r', 1e+20, "", 1000.0, 1, 0, 0, {}},
{da_handle_nlls, "time limit", 'r', 1000000.0, "", 0.0, 1, 0, 0, {}},
{da_handle_nlls, "coord convergence tol", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "coord optimality tol", 'r', NAN, "", 0.0, 2, 0, 0, {}},
{da_handle_nlls, "ralfit convergence rel tol fun", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nlls, "coord skip tol", 'r', NAN, "", -1.0, 2, 0, 0, {}},
{da_handle_nlls, "ralfit convergence abs tol grd", 'r', NAN, "", 0.0, 1, 1.0, 1, {}},
{da_handle_nn, "weights", 's', 0, "uniform", 0, 0, 0, 0, {"distance", "uniform"}},
{da_handle_nn, "metric", 's', 0, "euclidean", 0, 0, 0, 0, {"cityblock", "cosine", "euclidean", "euclidean_gemm", "inner product", "l1", "l2", "manhattan", "minkowski", "sqeuclidean", "sqeuclidean_gemm"}},
{da_handle_nn, "algorithm", 's', 0, "auto", 0, 0, 0, 0, {"auto", "ball tree", "brute", "kd tree"}},
{da_handle_nn, "radius", 'r', 1.0, "", 0.0, 2, 0, 0, {}},
{da_handle_nn, "outlier target", 'r', 0.0, "", 0, 0, 0, 0, {}},
{da_handle_nn, "minkowski parameter", 'r', 2.0, "", 0.0, 1, 0, 0, {}},
{da_handle_nn, "outlier handling", 's', 0, "none", 0, 0, 0, 0, {"manual", "most frequent", "none"}},
{da_handle_nn, "outlier label", 'i', 0.0, "", 0, 0, 0, 0, {}},
{da_handle_nn, "leaf size", 'i', 30.0, "", 1.0, 2, 0, 0, {}},
{da_handle_nn, "number of neighbors", 'i', 5.0, "", 1.0, 2, 0, 0, {}},
{da_handle_nn, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_nn, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_svm, "mixed precision", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_svm, "low precision convergence tolerance", 'r', 0.01, "", 0.0, 2, 0, 0, {}},
{da_handle_svm, "tau", 'r', NAN, "", 0.0, 2, 0, 0, {}},
{da_handle_svm, "kernel", 's', 0, "rbf", 0, 0, 0, 0, {"linear", "poly", "polynomial", "rbf", "sigmoid"}},
{da_handle_svm, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_svm, "n_folds", 'i', 5.0, "", 1.0, 2, 0, 0, {}},
{da_handle_svm, "low precision max_iter", 'i', 80000.0, "", 0.0, 2, 0, 0, {}},
{da_handle_svm, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_svm, "cache size", 'r', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_svm, "degree", 'i', 3.0, "", 1.0, 2, 0, 0, {}},
{da_handle_svm, "c", 'r', 1.0, "", 0.0, 1, 0, 0, {}},
{da_handle_svm, "max_iter", 'i', 100000.0, "", 0.0, 2, 0, 0, {}},
{da_handle_svm, "nu", 'r', 0.5, "", 0.0, 1, 1.0, 2, {}},
{da_handle_svm, "coef0", 'r', 0.0, "", 0, 0, 0, 0, {}},
{da_handle_svm, "tolerance", 'r', 0.001, "", 0.0, 1, 0, 0, {}},
{da_handle_svm, "gamma", 'r', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_svm, "max_ws_size", 'i', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_svm, "predict probabilities", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{da_handle_svm, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_svm, "epsilon", 'r', 0.1, "", 0.0, 2, 0, 0, {}},
{da_handle_interpolation, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_interpolation, "cubic spline type", 's', 0, "natural", 0, 0, 0, 0, {"clamped zero", "custom", "hermite", "natural"}},
{da_handle_interpolation, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_approx_nn, "algorithm", 's', 0, "ivfflat", 0, 0, 0, 0, {"auto", "ivfflat"}},
{da_handle_approx_nn, "train fraction", 'r', 1.0, "", 0.0, 1, 1.0, 2, {}},
{da_handle_approx_nn, "k-means_iter", 'i', 10.0, "", 1.0, 2, 0, 0, {}},
{da_handle_approx_nn, "metric", 's', 0, "sqeuclidean", 0, 0, 0, 0, {"cosine", "euclidean", "inner product", "sqeuclidean"}},
{da_handle_approx_nn, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_approx_nn, "n_probe", 'i', 1.0, "", 1.0, 2, 0, 0, {}},
{da_handle_approx_nn, "n_list", 'i', 1.0, "", 1.0, 2, 0, 0, {}},
{da_handle_approx_nn, "number of neighbors", 'i', 5.0, "", 1.0, 2, 0, 0, {}},
{da_handle_approx_nn, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_approx_nn, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_kernel_pca, "coef0", 'r', 1.0, "", 0, 0, 0, 0, {}},
{da_handle_kernel_pca, "kernel", 's', 0, "linear", 0, 0, 0, 0, {"linear", "poly", "precomputed", "rbf", "sigmoid"}},
{da_handle_kernel_pca, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_kernel_pca, "n_oversamples", 'i', 10.0, "", 0.0, 2, 0, 0, {}},
{da_handle_kernel_pca, "n_components", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{da_handle_kernel_pca, "degree", 'i', 3.0, "", 1.0, 2, 0, 0, {}},
{da_handle_kernel_pca, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kernel_pca, "fit inverse transform", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kernel_pca, "gamma", 'r', -1.0, "", 0, 0, 0, 0, {}},
{da_handle_kernel_pca, "remove zero eig", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kernel_pca, "power normalization", 's', 0, "qr", 0, 0, 0, 0, {"lu", "none", "qr"}},
{da_handle_kernel_pca, "alpha", 'r', 1.0, "", 0.0, 1, 0, 0, {}},
{da_handle_kernel_pca, "copy data", 's', 0, "yes", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_kernel_pca, "eigensolver", 's', 0, "auto", 0, 0, 0, 0, {"auto", "randomized", "syevd"}},
{da_handle_kernel_pca, "power iterations", 'i', -1.0, "", -1.0, 2, 0, 0, {}},
{da_handle_kernel_pca, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_tsne, "mixed precision", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_tsne, "init", 's', 0, "pca", 0, 0, 0, 0, {"pca", "random", "supplied"}},
{da_handle_tsne, "low precision max_iter", 'i', 200.0, "", 1.0, 2, 0, 0, {}},
{da_handle_tsne, "check data", 's', 0, "no", 0, 0, 0, 0, {"no", "yes"}},
{da_handle_tsne, "n_components", 'i', 2.0, "", 1.0, 2, 3.0, 2, {}},
{da_handle_tsne, "max_iter", 'i', 1000.0, "", 1.0, 2, 0, 0, {}},
{da_handle_tsne, "seed", 'i', 0.0, "", -1.0, 2, 0, 0, {}},
{da_handle_tsne, "perplexity", 'r', 30.0, "", 1.0, 2, 0, 0, {}},
{da_handle_tsne, "n_iter_without_progress", 'i', 300.0, "", 0.0, 2, 0, 0, {}},
{da_handle_tsne, "early exaggeration", 'r', 12.0, "", 1.0, 2, 0, 0, {}},
{da_handle_tsne, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"c", "column-major", "f", "fortran", "row-major"}},
{da_handle_tsne, "learning rate", 'r', -1.0, "", 0, 0, 0, 0, {}},
{da_handle_tsne, "min_grad_norm", 'r', 1e-07, "", 0.0, 2, 0, 0, {}},
{da_handle_tsne, "theta", 'r', 0.5, "", 0.0, 2, 1.0, 2, {}},
{da_handle_tsne, "low precision min_grad_norm", 'r', 0.0001, "", 0.0, 2, 0, 0, {}},
{-1, "datastore precision", 's', 0, "double", 0, 0, 0, 0, {"double", "single"}},
{-1, "datatype", 's', 0, "auto", 0, 0, 0, 0, {"auto", "boolean", "double", "float", "integer", "string"}},
{-1, "use header row", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "skip empty lines", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "delimiter", 's', 0, ",", 0, 0, 0, 0, {}},
{-1, "warn for missing data", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "thousands", 's', 0, "", 0, 0, 0, 0, {}},
{-1, "quote character", 's', 0, "\"", 0, 0, 0, 0, {}},
{-1, "decimal", 's', 0, ".", 0, 0, 0, 0, {}},
{-1, "scientific notation character", 's', 0, "e", 0, 0, 0, 0, {}},
{-1, "skip footer", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "skip rows", 's', 0, "", 0, 0, 0, 0, {}},
{-1, "comment", 's', 0, "#", 0, 0, 0, 0, {}},
{-1, "whitespace delimiter", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "escape character", 's', 0, "\\", 0, 0, 0, 0, {}},
{-1, "line terminator", 's', 0, "", 0, 0, 0, 0, {}},
{-1, "integers as floats", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "row start", 'i', 0.0, "", 0.0, 2, 0, 0, {}},
{-1, "storage order", 's', 0, "column-major", 0, 0, 0, 0, {"column-major", "row-major"}},
{-1, "skip initial space", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
{-1, "double quote", 'i', 0.0, "", 0.0, 2, 1.0, 2, {}},
