From 73368ad25bc9edd7e95450346c22964ba4b74c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 001/106] fix: interval_set::erase ignored stored ranges
 strictly inside the erased range

When no stored range straddles either bound, both search iterators end at
end() and the erase was treated as contained in one range, erasing nothing.
---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..3503840 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower == it_upper && it_lower != iset.end();
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From 058cf7b2bc381d5636041b0d266e8c49aa14d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 002/106] fix: interval_map::insert accepted a range containing
 a stored range

Only the two ends of the new range were looked up, so an existing range
strictly inside it was missed and the map ended up with overlapping ranges.
---
 source/core/data_management/interval_map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..258b0b8 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -116,6 +116,10 @@ template <class T> class interval_map {
         if (find(lb) != imap.end() || find(ub) != imap.end())
             // lb or ub are already in the intervals => trying to create an overlap
             return da_status_invalid_input;
+        auto it_next = imap.lower_bound(interval(lb, lb));
+        if (it_next != imap.end() && it_next->first.lower <= ub)
+            // an existing interval is contained in the new one
+            return da_status_invalid_input;
 
         imap.insert(std::make_pair(bounds, val));
         return da_status_success;
-- 
2.43.0


From 73abd6e69948ca1146e30827192f345e550e9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:28 +0000
Subject: [PATCH 003/106] fix: da_vector::push_back read freed memory when
 given its own element at capacity

---
 source/core/utilities/da_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index c29e90d..ca00dd3 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -150,6 +150,7 @@ template <typename T> class da_vector {
     }
 
     void push_back(const T &val) {
+        const T new_val = val; // val may refer to an element of this vector
         if (_size == _capacity) {
             _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
@@ -160,7 +161,7 @@ template <typename T> class da_vector {
             free(_data);
             _data = new_data;
         }
-        _data[_size++] = val;
+        _data[_size++] = new_val;
     }
 
     // Append the values of vec onto the end of the vector
-- 
2.43.0


From f65c5bd25c1853c21f5fa3cdf71b24abe7552c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 004/106] fix: clamp negative squared distances from the GEMM
 form to zero

Cancellation in |x|^2 - 2<x,y> + |y|^2 left small negative numbers for (nearly)
coincident points; the kd/ball trees, radius search and pairwise distances then
returned NaN after the square root.
---
 source/core/metrics/euclidean_gemm_distance.cpp | 16 ++++++++++++----
 source/core/nearest_neighbors/binary_tree.cpp   |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/core/metrics/euclidean_gemm_distance.cpp b/source/core/metrics/euclidean_gemm_distance.cpp
index a096847..53cbcbb 100644
--- a/source/core/metrics/euclidean_gemm_distance.cpp
+++ b/source/core/metrics/euclidean_gemm_distance.cpp
@@ -42,6 +42,10 @@
 
 namespace ARCH {
 
+// Cancellation in ||x||^2 - 2<x,y> + ||y||^2 can leave a small negative number where the
+// squared distance is close to zero. NaN values are preserved.
+template <typename T> static inline T nonneg(T x) { return x < (T)0.0 ? (T)0.0 : x; }
+
 /*
 An important kernel used repeatedly in k-means and SVM computations, among others.
 Given an m by k matrix X and an n by k matrix Y (both column major), computes the m by n matrix D, where
@@ -141,13 +145,15 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
             if (order == column_major) {
                 for (da_int j = 0; j < n; j++) {
                     for (da_int i = 0; i < m; i++) {
-                        D[i + j * ldd] += X_norms[i] + Y_norms[j];
+                        D[i + j * ldd] =
+                            nonneg(D[i + j * ldd] + (X_norms[i] + Y_norms[j]));
                     }
                 }
             } else {
                 for (da_int i = 0; i < m; i++) {
                     for (da_int j = 0; j < n; j++) {
-                        D[i * ldd + j] += X_norms[i] + Y_norms[j];
+                        D[i * ldd + j] =
+                            nonneg(D[i * ldd + j] + (X_norms[i] + Y_norms[j]));
                     }
                 }
             }
@@ -185,13 +191,15 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
             if (order == column_major) {
                 for (da_int j = 0; j < m; j++) {
                     for (da_int i = 0; i <= j; i++) {
-                        D[i + j * ldd] += X_norms[i] + X_norms[j];
+                        D[i + j * ldd] =
+                            nonneg(D[i + j * ldd] + (X_norms[i] + X_norms[j]));
                     }
                 }
             } else {
                 for (da_int j = 0; j < m; j++) {
                     for (da_int i = 0; i <= j; i++) {
-                        D[i * ldd + j] += X_norms[i] + X_norms[j];
+                        D[i * ldd + j] =
+                            nonneg(D[i * ldd + j] + (X_norms[i] + X_norms[j]));
                     }
                 }
             }
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..f31e3e8 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -208,6 +208,9 @@ da_status binary_tree<Derived, NodeType>::compute_distance(T &dist, da_int index
             dist += X[i] * this->A[index_A + i * this->lda];
         }
         dist = X_norm + this->A_norms[index_A] - 2 * dist;
+        // Cancellation can leave a small negative number here
+        if (dist < (T)0.0)
+            dist = (T)0.0;
     } else {
         // Compute the distance matrix using the specified metric
         da_status status = ARCH::da_metrics::pairwise_distances::pairwise_distance_kernel(
-- 
2.43.0


From 83262dc55d673b3741236f398d2d6ac400359c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 005/106] fix: index class probabilities of outliers by class
 position, not label

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..c4b90db 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1366,7 +1366,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
@@ -1418,7 +1418,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
-- 
2.43.0


From d703507e6589fa72fa4e44248b0fe417be484494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:34 +0000
Subject: [PATCH 006/106] fix: size the target buffer of radius regression by
 all queries, not all but the last

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index c4b90db..8894940 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1812,7 +1812,7 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
             // The size of the maximum number of neighbors for any query
             da_int max_n_neighbors = 0;
             max_n_neighbors = *std::max_element(temp_radius_neighbors_count.begin(),
-                                                temp_radius_neighbors_count.end() - 1);
+                                                temp_radius_neighbors_count.end());
             // Compute the predicted targets.
             // Depending on the indices of the neighbors, for each test data point return the
             // target of each of the neighbors.
-- 
2.43.0


From 2013a0a53be947f83628c9aaa2bacf11fb73854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 007/106] fix: refuse neighbour predictions from more
 neighbours than samples

The search then returned unset indices, which were used to read the labels or
targets.
---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 8894940..dfa81dd 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1176,6 +1176,12 @@ da_status neighbors<T>::predict_proba_compute_knn(da_int n_queries, da_int n_fea
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    // The search needs at least as many samples as neighbors
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "The number of neighbors must not be greater than the number of "
+                        "samples.");
+
     if (!this->classes_computed) {
         // From the input data y_train, find the available classes.
         status = neighbors<T>::available_classes();
@@ -1686,6 +1692,12 @@ neighbors<T>::predict_targets_knn(da_int n_queries, da_int n_features, const T *
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    // The search needs at least as many samples as neighbors
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "The number of neighbors must not be greater than the number of "
+                        "samples.");
+
     // Allocate memory to set neighbors' indices and corresponding distances.
     // If n_ind and n_dist were returned in row order, then we need to transpose them
     try {
-- 
2.43.0


From 8076ab61f2f9c37efa86bea06ceaaa06dccf2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 008/106] fix: radius neighbour counts read past the results
 when the caller's array is larger

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index dfa81dd..17c924d 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -219,7 +219,7 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
                            "least size: " +
                                std::to_string(n_queries + 1) + ".");
         }
-        return neighbors<T>::radius_neighbors_count_internal(n_count, result);
+        return neighbors<T>::radius_neighbors_count_internal(n_queries + 1, result);
         break;
     }
     case da_result::da_nn_radius_neighbors_offsets: {
-- 
2.43.0


From eb112ff6b4037e7f8a7a1cc5c9acc3fe575a4289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:22 +0000
Subject: [PATCH 009/106] fix: forget the squared-distance mode when the metric
 of a neighbours handle changes

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 17c924d..8bfd0dd 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -334,6 +334,7 @@ template <typename T> da_status neighbors<T>::set_params() {
         }
     }
 
+    this->get_squares = false;
     if (metric == da_euclidean || (metric == da_minkowski && p == T(2.0)) ||
         metric == da_euclidean_gemm) {
         this->get_squares = true;
-- 
2.43.0


From 673afe54040315d3e92510cb90e350afe24eceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:58 +0000
Subject: [PATCH 010/106] fix: a refused radius query no longer changes how
 earlier results are read

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 8bfd0dd..50a26c3 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1936,9 +1936,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Cannot sort results if distances are not returned.");
 
-    this->sort_results = sort_results;
-    this->rnn_return_distances = return_distance;
-
     // Return if set_data() has not been called
     if (!istrained_Xtrain)
         return da_error_bypass(this->err, da_status_no_data,
@@ -1977,6 +1974,10 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         r = this->radius;
     }
 
+    // Only now that the call is valid: these describe the stored results
+    this->sort_results = sort_results;
+    this->rnn_return_distances = return_distance;
+
     status = neighbors<T>::radius_neighbors_compute(
         n_queries, n_features, X_test_temp, ldx_test_temp, r,
         this->radius_neighbors_count, this->radius_neighbors_indices,
-- 
2.43.0


From 9d030d1cdded166967485150f39f8f199940dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 011/106] fix: a refused set_data on a neighbours handle leaves
 no dangling training data

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 50a26c3..bb774ae 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -478,6 +478,9 @@ da_status neighbors<T>::set_data(da_int n_samples, da_int n_features, const T *X
                                    std::to_string(this->n_samples) + ".");
     }
 
+    // The previous data are dropped below, so there are none unless this call succeeds
+    this->istrained_Xtrain = false;
+
     // Guard against errors due to multiple calls using the same class instantiation
     if (X_train_temp) {
         delete[] (X_train_temp);
-- 
2.43.0


From 05c5b1c5565c02ed3d24f7f40724f631e4ecc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:57 +0000
Subject: [PATCH 012/106] fix: decision tree root obeys the split limits,
 leaves and depth counted anew at each fit

---
 .../tree/decision_tree_training_fit.hpp               | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..beaa5eb 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -519,8 +519,9 @@ template <typename T> da_status decision_tree<T>::fit() {
         n_obs = samples_idx.size();
     }
 
-    // Reset number of leaves (if calling fit multiple times)
+    // Reset number of leaves and depth (if calling fit multiple times)
     n_leaves = 0;
+    depth = 0;
 
     // Initialize the root node
     n_nodes = 1;
@@ -545,9 +546,13 @@ template <typename T> da_status decision_tree<T>::fit() {
         }
     }
 
-    // Insert the root node in the queue if the maximum depth is big enough
-    if (max_depth > 0)
+    // Insert the root node in the queue if it meets the same criteria as any other node,
+    // otherwise it is the only leaf
+    if (max_depth > 0 && tree[0].score > min_split_score &&
+        tree[0].n_samples >= 2 * min_node_sample)
         nodes_to_treat.push_back(0);
+    else
+        n_leaves = 1;
 
     if (n_threads_split > 1) {
         status = fit_parallel();
-- 
2.43.0


From 8920ba2d1791b2991cd570b4a79c0ab06270b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 013/106] fix: equal feature values are never separated when
 the feature threshold is 0

---
 .../decision_forest/tree/decision_tree_training_split.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..77329e5 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -107,8 +107,10 @@ bool decision_tree<T>::update_split_sorted(da_int sidx, da_int &next_idx, da_int
      * sorted feature values. */
     bool end_split_search = false;
     next_idx = sidx;
+    // equal values can never be separated, even if feat_thresh is 0
     while (next_idx + 1 <= end_idx &&
-           std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh) {
+           (fv[next_idx + 1] == fv[sidx] ||
+            std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh)) {
         next_idx++;
     }
     if (next_idx >= end_idx)
-- 
2.43.0


From 5b629f495fdf0f20f9ab7d60df3e1b361511d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:50 +0000
Subject: [PATCH 014/106] fix: features constant in one tree node are still
 considered in its sibling

---
 .../tree/decision_tree_training_fit.hpp           | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index beaa5eb..29e3b84 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -173,11 +173,6 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                                                         split<T> &best_split) {
     node<T> &current_node = tree[node_idx];
 
-    // Project back the discovered constant features to the parent
-    if (node_idx > 0 &&
-        tree[current_node.parent_idx].const_feat_idx > current_node.const_feat_idx)
-        tree[current_node.parent_idx].const_feat_idx = current_node.const_feat_idx;
-
     // Split the node and add the 2 children
     if (best_split.feat_idx != -1) {
         current_node.is_leaf = false;
@@ -240,11 +235,6 @@ template <typename T> da_status decision_tree<T>::fit_serial() {
         da_int node_idx = get_next_node_idx();
         node<T> &current_node = tree[node_idx];
 
-        // update the constant features discovered by the sibling node if necessary
-        if (node_idx > 0 &&
-            tree[current_node.parent_idx].const_feat_idx < current_node.const_feat_idx)
-            current_node.const_feat_idx = tree[current_node.parent_idx].const_feat_idx;
-
         best_split.score = current_node.score;
         best_split.feat_idx = -1;
         if (node_idx > 0) {
@@ -322,11 +312,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     node_idx = get_next_node_idx();
                     node<T> &current_node = tree[node_idx];
 
-                    if (node_idx > 0 && tree[current_node.parent_idx].const_feat_idx <
-                                            current_node.const_feat_idx)
-                        current_node.const_feat_idx =
-                            tree[current_node.parent_idx].const_feat_idx;
-
                     best_split.score = current_node.score;
                     best_split.feat_idx = -1;
                     if (node_idx > 0) {
-- 
2.43.0


From c4f06abfc0320472df1eb4e195777aa43b254e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 015/106] fix: samples tied below the minimum node size are
 counted once in split search

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 77329e5..dd41e8b 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -385,7 +385,8 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            // samples up to next_idx have already been counted
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From fdb7c87c629a5cc8d81a098abcedb26c14660fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:13 +0000
Subject: [PATCH 016/106] fix: predict_proba of decision trees follows
 one-vs-all splits

---
 .../tree/decision_tree_inference.hpp              | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..672a6ac 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -152,13 +152,14 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
-                current_node_idx = current_node->left_child_idx;
-                current_node = &tree[current_node_idx];
-            } else {
-                current_node_idx = current_node->right_child_idx;
-                current_node = &tree[current_node_idx];
-            }
+            bool go_left;
+            if (current_node->prop == categorical_onevall)
+                go_left = (da_int)std::round(feat_val) == current_node->category;
+            else
+                go_left = feat_val < current_node->x_threshold;
+            current_node_idx =
+                go_left ? current_node->left_child_idx : current_node->right_child_idx;
+            current_node = &tree[current_node_idx];
         }
         for (da_int j = 0; j < n_class; j++)
             y_proba_pred_temp[ldy_proba_pred_temp * j + i] =
-- 
2.43.0


From f4e959c22b7e062baeab1798ec6f71c89c12b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 017/106] fix: one-vs-all histogram splits consider every
 category

---
 .../tree/decision_tree_training_split.hpp            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index dd41e8b..38ae0e2 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -266,7 +266,6 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
     if (n_cat < X_binned->max_bin)
         prop = (split_property)cat_split_strat;
 
-    da_int old_ns_left = 0;
     da_int thresh_start_idx = feat_idx * (X_binned->max_bin - 1);
     for (da_int cat = 0; cat < n_cat; ++cat) {
         if (ws.hist_count_samples[cat] == 0)
@@ -279,11 +278,14 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
         else
             split_hist_ordered(nd, ns_left, ns_right, cat_start_idx, ws);
 
-        if (ns_left < min_node_sample || ns_left <= old_ns_left)
+        if (ns_left < min_node_sample)
             continue;
-        if (ns_right < min_node_sample)
-            break;
-        old_ns_left = ns_left;
+        if (ns_right < min_node_sample) {
+            // the left side only grows for ordered categories
+            if (prop == categorical_ordered)
+                break;
+            continue;
+        }
 
         T left_score = score_function(ns_left, n_class, ws.count_left_classes);
         T right_score = score_function(ns_right, n_class, ws.count_right_classes);
-- 
2.43.0


From ad95f8e85a90a0924017bd11efcb887364e076a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 018/106] fix: histogram one-vs-all splits only for features
 whose bins are their categories

---
 source/core/decision_forest/common/histogram.cpp             | 5 +++++
 source/core/decision_forest/common/histogram.hpp             | 3 +++
 .../decision_forest/tree/decision_tree_training_split.hpp    | 3 ++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index cae7a0d..3591c38 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -130,6 +130,7 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
         nbins.resize(n_features);
         values.resize(n_samples * n_threads);
         binned_data.resize(n_features * n_samples);
+        is_categorical.resize(n_features);
     } catch (std::bad_alloc &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
@@ -147,6 +148,7 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
 #pragma omp parallel for shared(X, max_bin, ldx, n_features, n_samples) default(none)
     for (da_int j = 0; j < n_features; j++) {
         da_int X_col_idx = j * ldx;
+        da_int categorical = 1;
         for (da_int i = 0; i < n_samples; i++) {
             da_int start = 0, end = nbins[j] - 1;
             while (start < end) {
@@ -158,7 +160,10 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
                 }
             }
             binned_data[j * n_samples + i] = start;
+            if (std::abs(X[X_col_idx + i] - (T)start) > (T)1.0e-05)
+                categorical = 0;
         }
+        is_categorical[j] = categorical;
     }
 
     return da_status_success;
diff --git a/source/core/decision_forest/common/histogram.hpp b/source/core/decision_forest/common/histogram.hpp
index c500c00..b496c8d 100644
--- a/source/core/decision_forest/common/histogram.hpp
+++ b/source/core/decision_forest/common/histogram.hpp
@@ -52,6 +52,7 @@ template <typename T> class bins {
      *             e.g., if X[i,j] = v is assigned to bin b, then thresholds[j, b] < v < thresholds[j, b+1]
      * nbins: number of bins used for each feature. nbins[j] can be < max_bins for a feature j if it contains highly clustered data.
      *        For example, if feature j is already categorical, nbins[j] will contain the number of categories of j.
+     * is_categorical: n_features. 1 if each bin of the feature holds exactly the category with the same number, 0 otherwise.
      * binned_data: n_samples * n_features. Holds the bin indices for each sample and each feature.
      */
   public:
@@ -61,6 +62,7 @@ template <typename T> class bins {
 
     std::vector<T> thresholds;
     std::vector<da_int> nbins;
+    std::vector<da_int> is_categorical;
     std::vector<uint16_t> binned_data;
 
   public:
@@ -75,6 +77,7 @@ template <typename T> class bins {
             throw std::invalid_argument("Histograms: number of bins is too big.");
         thresholds.resize((this->max_bin - 1) * n_features);
         nbins.resize(n_features);
+        is_categorical.resize(n_features, 0);
         binned_data.resize(n_samples * n_features);
     }
 
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 38ae0e2..41deac6 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -263,7 +263,8 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
 
     split_property prop = categorical_ordered;
     da_int n_cat = X_binned->nbins[feat_idx];
-    if (n_cat < X_binned->max_bin)
+    // bins can be split one from all others only if they are the categories of the feature
+    if (n_cat < X_binned->max_bin && X_binned->is_categorical[feat_idx])
         prop = (split_property)cat_split_strat;
 
     da_int thresh_start_idx = feat_idx * (X_binned->max_bin - 1);
-- 
2.43.0


From bfcc6254f03e6b2d5f6da3ee8941b08d8b48f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 019/106] fix: histogram partition of decision trees indexes
 the binned data, not X

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From 92f68b3b33b168c0980ee56ef580afb432fe9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 020/106] fix: one-vs-all splits count bootstrap repetitions

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 41deac6..c477359 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -332,7 +332,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From f9a63dcd27d980d73a861b0bc425359a31dfd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 021/106] fix: decision tree thresholds separate the values
 they were computed from

---
 .../tree/decision_tree_training_partition.hpp            | 4 ++--
 .../tree/decision_tree_training_split.hpp                | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index d829d37..0f6aa47 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -56,9 +56,9 @@ da_int decision_tree<T>::partition_samples_raw_continuous(const node<T> &nd) {
         da_int t_sidx = samples_idx[tail_idx];
         T head_val = X[start_col + h_sidx];
         T tail_val = X[start_col + t_sidx];
-        if (head_val <= nd.x_threshold)
+        if (head_val < nd.x_threshold)
             head_idx += 1;
-        else if (tail_val > nd.x_threshold)
+        else if (tail_val >= nd.x_threshold)
             tail_idx -= 1;
         else {
             std::swap(samples_idx[head_idx], samples_idx[tail_idx]);
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index c477359..9d7d5ae 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -402,8 +402,13 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                               (current_node.score - split_score);
         if (split_score < sp.score && split_improvement > min_improvement) {
             sp.score = split_score;
-            sp.threshold =
-                (ws.feature_values[next_idx] + ws.feature_values[next_idx + 1]) / 2;
+            // midpoint without overflow. Samples strictly below the threshold go left so
+            // it must be greater than the left value, even when rounding intervenes
+            T left_val = ws.feature_values[next_idx];
+            T right_val = ws.feature_values[next_idx + 1];
+            sp.threshold = left_val / 2 + right_val / 2;
+            if (!(sp.threshold > left_val && sp.threshold <= right_val))
+                sp.threshold = right_val;
             sp.right_score = right_score;
             sp.left_score = left_score;
             sp.prop = continuous;
-- 
2.43.0


From b0747e21d672cc44f6902dbf8f7f616c7a99b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 022/106] fix: log-probabilities of trees and forests report
 refused calls and check the class count

---
 .../decision_forest/forest/decision_forest_inference.hpp     | 5 ++++-
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..081f133 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -249,7 +249,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status;
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 672a6ac..ac00978 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -184,7 +184,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
-- 
2.43.0


From b478c73fbb94316bb32fd95eb04c34203fb4276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 023/106] fix: cubic splines honour the leading dimension and
 layout of values and derivatives

---
 .../cubic_spline/cubic_spline.cpp             | 69 +++++++------------
 .../interpolation/interpolation_generic.hpp   | 21 ++++--
 2 files changed, 39 insertions(+), 51 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..3b0b915 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -161,8 +161,8 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
             da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
+                               ? (i * this->ldy + d)
+                               : (d * this->ldy + i);
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
@@ -308,53 +308,34 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
-    if (this->storage_order == column_major || this->dim_y <= 1) {
-        for (da_int d = 0; d < this->dim_y; d++) {
-            da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
-            da_int start_dy = d * (this->n_sites - 1);
-
-            for (da_int i = 0; i < this->n_sites - 1; i++) {
-                T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
-                T dy_i = this->dy[start_dy + i];
-
-                T h_i2 = h_i * h_i;
-                T h_i3 = h_i2 * h_i;
-
-                coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * i + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * i + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
-        }
-    } else {
-        for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
-            da_int start_dim = i * 4;
+    // Strides between consecutive sites and dimensions in the arrays provided by the user
+    bool y_col = this->storage_order == column_major;
+    bool yp_col = this->storage_order_deriv == column_major;
+    da_int y_inc = y_col ? 1 : this->ldy, y_dim_inc = y_col ? this->ldy : 1;
+    da_int yp_inc = yp_col ? 1 : this->ldy_deriv, yp_dim_inc = yp_col ? this->ldy_deriv : 1;
+
+    for (da_int d = 0; d < this->dim_y; d++) {
+        da_int start_dim = d * 4 * (this->n_sites - 1);
+        da_int start_dy = d * (this->n_sites - 1);
+        const T *y_d = &this->y[d * y_dim_inc];
+        const T *yp_d = &this->y_deriv[d * yp_dim_inc];
 
+        for (da_int i = 0; i < this->n_sites - 1; i++) {
             T h_i = this->dx[i];
+            T y_i = y_d[i * y_inc];
+            T yp_i = yp_d[i * yp_inc];
+            T yp_ip1 = yp_d[(i + 1) * yp_inc];
+            T dy_i = this->dy[start_dy + i];
+
             T h_i2 = h_i * h_i;
             T h_i3 = h_i2 * h_i;
 
-            for (da_int d = 0; d < this->dim_y; d++) {
-                da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
-                T dy_i = this->dy[d_start + i];
-
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
+            coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
+            coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
+            coeffs[start_dim + 4 * i + 2] =
+                3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
+            coeffs[start_dim + 4 * i + 3] =
+                -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
         }
     }
 
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..7f3be3c 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -44,9 +44,14 @@ template <typename T> class interpolation_generic {
     // Dimensions
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
+    // Leading dimension and storage order of the values y
     da_int ldy = 0;
-    // Interpolation points (x_i, y_i)
     da_order storage_order = column_major;
+    // Number of dimensions, leading dimension and storage order of the derivatives y_deriv
+    da_int dim_y_deriv = 0;
+    da_int ldy_deriv = 0;
+    da_order storage_order_deriv = column_major;
+    // Interpolation points (x_i, y_i)
     T *x_internal = nullptr;
     const T *x_sites = nullptr, *x_usr = nullptr;
     const T *y = nullptr;
@@ -263,10 +268,10 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
+    da_order order_data = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, order_data, this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
@@ -275,8 +280,9 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
-        this->dim_y = dim;
-        this->ldy = ldy_data;
+        this->dim_y_deriv = dim;
+        this->ldy_deriv = ldy_data;
+        this->storage_order_deriv = order_data;
         y_deriv = y_data;
         derivatives_set = true;
     } else {
@@ -290,11 +296,12 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
         // Copy usr values and pointer
         this->dim_y = dim;
         this->ldy = ldy_data;
+        this->storage_order = order_data;
         y = y_data;
 
         if (storage_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * this->ldy;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -306,7 +313,7 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] = y[(i + 1) * ldy + j] - y[i * ldy + j];
             }
         }
         values_set = true;
-- 
2.43.0


From 38ad3558d0634cc4d3f7c94f020c5e7f6b753e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 024/106] fix: cubic splines refuse boundary conditions or
 derivatives of another dimension than the values

---
 .../core/interpolation/cubic_spline/cubic_spline.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 3b0b915..8c1f7f9 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -238,6 +238,12 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
         return da_error(
             this->err, da_status_out_of_date,
             "Boundary conditions must be set for custom spline interpolation.");
+    if ((da_int)left_bc.size() != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The boundary conditions were set for " +
+                            std::to_string(left_bc.size()) +
+                            " dimensions and the values for " +
+                            std::to_string(this->dim_y) + ".");
 
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
@@ -300,6 +306,12 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
     if (!this->derivatives_set)
         return da_error(this->err, da_status_out_of_date,
                         "Derivatives must be set for Hermite spline interpolation.");
+    if (this->dim_y_deriv != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The derivatives were set for " +
+                            std::to_string(this->dim_y_deriv) +
+                            " dimensions and the values for " +
+                            std::to_string(this->dim_y) + ".");
 
     try {
         coeffs.resize(4 * (this->n_sites - 1) * this->dim_y);
-- 
2.43.0


From 5bb179ce9ba40dcf7dee56ff4cb0d46c51defbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 025/106] fix: interpolation sites that are refused leave no
 trace

---
 .../interpolation/interpolation_generic.hpp   | 44 ++++++++++---------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 7f3be3c..a5cf432 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -132,37 +132,39 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
-    n_sites = n;
-    x_usr = x;
-    x_sites = x_usr;
-    index_size = n_sites + 1;
+    // Check that the sites are sorted and do not contain duplicates
+    for (da_int i = 0; i < n - 1; i++) {
+        if (!(x[i + 1] - x[i] > 0.))
+            return da_error(
+                this->err, da_status_invalid_input,
+                "All sites must be provided in strictly increasing order. x[" +
+                    std::to_string(i) + "] = " + std::to_string(x[i]) + " and x[" +
+                    std::to_string(i + 1) + "] = " + std::to_string(x[i + 1]));
+    }
 
     try {
-        dx.resize(n_sites - 1);
-        interval_index_lo.resize(index_size);
-        interval_index_up.resize(index_size);
+        dx.resize(n - 1);
+        interval_index_lo.resize(n + 1);
+        interval_index_up.resize(n + 1);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
 
+    n_sites = n;
+    x_usr = x;
+    x_sites = x_usr;
+    index_size = n_sites + 1;
+
     // Mark sites as non-uniform
     uniform_sites = false;
     x_start = x_sites[0];
     x_end = x_sites[n_sites - 1];
     x_range = x_end - x_start;
 
-    // Compute sites differences and check that the sites are sorted and do not contain duplicates
-    // (all dx elements are strictly positive)
-    for (da_int i = 0; i < n_sites - 1; i++) {
+    // Compute sites differences (all dx elements are strictly positive)
+    for (da_int i = 0; i < n_sites - 1; i++)
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
-            return da_error(
-                this->err, da_status_invalid_input,
-                "All sites must be provided in strictly increasing order. x[" +
-                    std::to_string(i) + "] = " + std::to_string(x_sites[i]) + " and x[" +
-                    std::to_string(i + 1) + "] = " + std::to_string(x_sites[i + 1]));
-    }
 
     // Build index:
     // interval_index_lo[i] = idx where x_sites[idx] <= x_start + i*dx_index
@@ -217,16 +219,16 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
-    n_sites = n;
     T dx_val = (x_end - x_start) / (T)(n - 1);
-    x_usr = nullptr;
     try {
-        x_internal = new T[n_sites];
-        dx.resize(n_sites - 1, dx_val);
+        dx.assign(n - 1, dx_val);
+        x_internal = new T[n];
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
+    n_sites = n;
+    x_usr = nullptr;
     for (da_int i = 0; i < n; i++) {
         x_internal[i] = x_start + i * dx_val;
     }
-- 
2.43.0


From 5374aba19be85dfd13ee0f5cc90f9b4d2c6d4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 026/106] fix: an invalid interpolation model is refused
 without being stored

---
 source/core/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..8785898 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,7 +50,6 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
         interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
@@ -61,6 +60,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
-- 
2.43.0


From 2675f9df6e813d3ee7736d3230e3eae2b878d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 027/106] fix: search_cells returns the cell that contains the
 point, also far from the sites

---
 .../interpolation/interpolation_generic.hpp   | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index a5cf432..7ef8b77 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -342,22 +342,24 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         return da_error(this->err, da_status_invalid_pointer,
                         "x_eval or cells array cannot be null.");
 
-    if (this->uniform_sites) {
-        T dx_u = dx[0];
-        for (da_int i = 0; i < n_eval; i++) {
-            T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
-        }
-    } else {
-        T i_dx_u = (T)(index_size - 2) / x_range;
-        // Binary search inside the indexed interval.
-        for (da_int i = 0; i < n_eval; i++) {
-            T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
-            da_int left = interval_index_lo[idx];
-            da_int right = interval_index_up[idx];
+    // First guess from the position of the point in [x_start, x_end]. It is clamped before being
+    // converted to an integer as x can be arbitrarily far from the sites
+    da_int last_cell = this->n_sites - 2;
+    da_int last_idx = this->uniform_sites ? last_cell : index_size - 2;
+    T scale = this->uniform_sites ? (T)1.0 / dx[0] : (T)(index_size - 2) / x_range;
+    for (da_int i = 0; i < n_eval; i++) {
+        T x = x_eval[i];
+        T pos = (x - this->x_start) * scale;
+        da_int idx = 0;
+        if (pos >= (T)last_idx)
+            idx = last_idx;
+        else if (pos > (T)0.0)
+            idx = static_cast<da_int>(pos);
+        da_int left = idx, right = idx + 1;
+        if (!this->uniform_sites) {
+            // Binary search inside the indexed interval.
+            left = interval_index_lo[idx];
+            right = interval_index_up[idx];
             while (right - left > 1) {
                 da_int mid = (left + right) / 2;
                 if (x < this->x_sites[mid]) {
@@ -366,8 +368,13 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
                     left = mid;
                 }
             }
-            cells[i] = left;
         }
+        // Rounding in the first guess can leave a point close to a site in a neighbouring cell
+        while (left > 0 && x < this->x_sites[left])
+            left--;
+        while (left < last_cell && x >= this->x_sites[left + 1])
+            left++;
+        cells[i] = left;
     }
 
     return da_status_success;
-- 
2.43.0


From 80e171e64668039331f724125e8f2a87645048ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 028/106] fix: kernel matrices of X with itself in the
 multi-threaded blocked path

With several threads and more than 256 rows each block pairs different rows
of X. The linear, polynomial and sigmoid kernels offset the null Y pointer,
and the RBF kernel ran a rank-k update that ignored the block column.
---
 source/core/kernel_functions/kernel_functions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/core/kernel_functions/kernel_functions.cpp b/source/core/kernel_functions/kernel_functions.cpp
index e028143..9325ab7 100644
--- a/source/core/kernel_functions/kernel_functions.cpp
+++ b/source/core/kernel_functions/kernel_functions.cpp
@@ -405,6 +405,11 @@ inline void kernel_setup(da_order order, da_int m, da_int n, da_int k, const T *
     // Only use parallel blocks if dimensions are large enough for safe SIMD operations
     if (n_threads > 1 && min_block_dim >= SIMD_PADDING &&
         min_matrix_dim >= SIMD_PADDING) {
+        if (X_is_Y) {
+            // Each block pairs different rows of X, so off-diagonal blocks need Y = X
+            Y = X;
+            ldy = ldx;
+        }
         if (order == row_major) {
 #pragma omp parallel for schedule(dynamic) collapse(2)                                   \
     num_threads(n_threads) default(none)                                                 \
@@ -578,6 +583,11 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
     // Only use parallel blocks if dimensions are large enough for safe SIMD operations
     if (n_threads > 1 && min_block_dim >= SIMD_PADDING &&
         min_matrix_dim >= SIMD_PADDING) {
+        if (X_is_Y) {
+            // Each block pairs different rows of X, so off-diagonal blocks need Y = X
+            Y = X;
+            ldy = ldx;
+        }
         if (order == row_major) {
 #pragma omp parallel for schedule(dynamic) collapse(2)                                   \
     num_threads(n_threads) default(none)                                                 \
@@ -602,7 +612,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(n_in, m_in, D + D_block_offset, ldd, multiplier,
                                     Y_norms + Y_norm_offset, X_norms + X_norm_offset);
                 }
@@ -631,7 +641,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(m_in, n_in, D + D_block_offset, ldd, multiplier,
                                     X_norms + X_norm_offset, Y_norms + Y_norm_offset);
                 }
-- 
2.43.0


From d3212150b44b5383900ac8ddcd69ce380b452367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 029/106] fix: cosine distances beyond the first 1024 columns

The post-operation runs once per block of columns but always scaled by the
norms of the first block, and zeroed the diagonal of the wrong rows.
---
 source/core/metrics/cosine_distance.cpp             | 9 +++++----
 source/core/metrics/euclidean_distance.cpp          | 3 ++-
 source/core/metrics/minkowski_distance.cpp          | 3 ++-
 source/core/metrics/partitioning_infrastructure.hpp | 3 ++-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/core/metrics/cosine_distance.cpp b/source/core/metrics/cosine_distance.cpp
index 7eba961..f62c2cb 100644
--- a/source/core/metrics/cosine_distance.cpp
+++ b/source/core/metrics/cosine_distance.cpp
@@ -69,19 +69,20 @@ template <typename T> struct CosinePostOp {
     bool X_is_Y = false;
     CosinePostOp(std::vector<T> &&normX, std::vector<T> &&normY, bool X_is_Y)
         : normX(std::move(normX)), normY(std::move(normY)), X_is_Y(X_is_Y) {}
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    inline void operator()(da_int m, da_int n, da_int first_col, T *C,
+                           da_int ldc) const {
         if (!X_is_Y) {
             for (da_int j = 0; j < n; j++) {
                 for (da_int i = 0; i < m; i++) {
-                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j]);
+                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[first_col + j]);
                 }
             }
         } else {
             for (da_int j = 0; j < n; j++) {
                 for (da_int i = 0; i < m; i++) {
-                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j]);
+                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[first_col + j]);
                 }
-                C[j + j * ldc] = 0.0;
+                C[first_col + j + j * ldc] = 0.0;
             }
         }
     }
diff --git a/source/core/metrics/euclidean_distance.cpp b/source/core/metrics/euclidean_distance.cpp
index b1c8032..3271c13 100644
--- a/source/core/metrics/euclidean_distance.cpp
+++ b/source/core/metrics/euclidean_distance.cpp
@@ -65,7 +65,8 @@ template <typename T, da_int MR, da_int NR> struct SqEuclideanKernelFunctor_pack
 
 // Functor for Euclidean distance calculation
 template <typename T> struct SqrtPostOp {
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    inline void operator()(da_int m, da_int n, [[maybe_unused]] da_int first_col, T *C,
+                           da_int ldc) const {
         // vectorized sqrt of matrix or vector elements
         da_simd_math::sqrt_matrix(m, n, C, ldc);
     }
diff --git a/source/core/metrics/minkowski_distance.cpp b/source/core/metrics/minkowski_distance.cpp
index 4714bb3..8ebf0c4 100644
--- a/source/core/metrics/minkowski_distance.cpp
+++ b/source/core/metrics/minkowski_distance.cpp
@@ -67,7 +67,8 @@ template <typename T, da_int MR, da_int NR> struct MinkowskiKernelFunctor_packed
 template <typename T> struct PowPostOp {
     T invp;
     PowPostOp(T p) : invp(1.0 / p) {}
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    inline void operator()(da_int m, da_int n, [[maybe_unused]] da_int first_col, T *C,
+                           da_int ldc) const {
         for (da_int j = 0; j < n; j++) {
             for (da_int i = 0; i < m; i++) {
                 C[i + j * ldc] = std::pow(C[i + j * ldc], invp);
diff --git a/source/core/metrics/partitioning_infrastructure.hpp b/source/core/metrics/partitioning_infrastructure.hpp
index 3dc03e9..dfbc5fa 100644
--- a/source/core/metrics/partitioning_infrastructure.hpp
+++ b/source/core/metrics/partitioning_infrastructure.hpp
@@ -231,7 +231,8 @@ inline da_status LoopFive_packed(da_int m, da_int n, da_int k, const T *A, da_in
         LoopFour_packed<T, MR, NR, MC, NC, KC, Kernel_Operator>(
             m, jb, k, A, lda, &b_matrix(j, 0), ldb, &c_matrix(0, j), ldc, kernelOp,
             Btilde, Atilde_all, n_threads);
-        postOp(m, jb, &c_matrix(0, j), ldc);
+        // The column block starts at column j of C
+        postOp(m, jb, j, &c_matrix(0, j), ldc);
     }
 
     aligned_free(Atilde_all);
-- 
2.43.0


From a9c0a90fe415961d892782f3b8cffa94fa9c2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 030/106] fix: train and test sizes whose sum overflows were
 accepted

A sum past the largest da_int wrapped to a negative number, passed the check
against the number of rows, and the split ran far outside its arrays.
---
 source/core/utilities/da_utils.cpp         | 5 +++--
 source/core/utilities/train_test_split.cpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..3015833 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -361,10 +361,11 @@ da_status validate_parameters_stratified_shuffle(da_int m, da_int train_size,
                                                  const std::vector<da_int> &counts) {
     if (n_classes < 2)
         return da_status_invalid_input;
-    if (train_size + test_size > m)
-        return da_status_invalid_input;
     if (train_size < n_classes || test_size < n_classes)
         return da_status_invalid_input;
+    // Both sizes are positive here; written so that the sum cannot overflow
+    if (train_size > m - test_size)
+        return da_status_invalid_input;
     for (da_int i = 0; i < n_classes; ++i) {
         if (counts[i] < 2)
             return da_status_invalid_input;
diff --git a/source/core/utilities/train_test_split.cpp b/source/core/utilities/train_test_split.cpp
index e528bf0..d8de638 100644
--- a/source/core/utilities/train_test_split.cpp
+++ b/source/core/utilities/train_test_split.cpp
@@ -60,7 +60,8 @@ da_status validate_parameters_train_test_split(da_order order, da_int m, da_int
     if (train_size < 1 || test_size < 1) {
         return da_status_invalid_input;
     }
-    if ((train_size + test_size) > m) {
+    // Both sizes are positive here; written so that the sum cannot overflow
+    if (train_size > m - test_size) {
         return da_status_invalid_input;
     }
 
-- 
2.43.0


From 55e2118fd4ceaa6ce53cc3ea00c7133c68e40b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 031/106] fix: floating-point classes are floored, not
 truncated towards zero

As documented; truncation merged a small negative class with a small positive one.
---
 source/core/utilities/da_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3015833..2852a8e 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -270,7 +270,7 @@ da_status convert_fp_classes(da_int m, da_int precision, const T *classes,
 
 #pragma omp simd
     for (da_int i = 0; i < m; ++i) {
-        int_classes[i] = (int64_t)(classes[i] * precision);
+        int_classes[i] = (int64_t)std::floor(classes[i] * precision);
     }
     return da_status_success;
 }
-- 
2.43.0


From 6f2f3144b09e5b2643015c3ad247ed38196b6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 032/106] fix: standardize scales supplied-mean deviations by
 the number of observations

---
 .../basic_statistics/statistical_utilities.cpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..d81ba16 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -74,28 +74,35 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     internal_scale = &scale;
 
     // By computing length we can avoid duplicating some of the logic for the different axis types
-    da_int length;
+    // and n_obs is the number of observations which contribute to each statistic
+    da_int length, n_obs;
     switch (axis) {
     case da_axis_col:
         length = p;
+        n_obs = n;
         break;
     case da_axis_row:
         length = n;
+        n_obs = p;
         break;
     case da_axis_all:
         length = 1;
+        n_obs = n * p;
         break;
     default:
         return da_status_internal_error; // LCOV_EXCL_LINE
         break;
     }
 
+    // As in the variance computation, the sum of squares is only divided by values greater than 1
     da_int scale_factor = dof;
     if (dof < 0) {
-        scale_factor = length;
+        scale_factor = n_obs;
     } else if (dof == 0) {
-        scale_factor = length - 1;
+        scale_factor = n_obs - 1;
     }
+    if (scale_factor < 1)
+        scale_factor = 1;
 
     // These booleans will help us determine which route the computation should take
     bool shift_is_null = true;
@@ -205,7 +212,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
-                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(length) *
+                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(n_obs) *
                                  static_cast<da_fp16::wider_t<T>>(scale[i]) /
                                  static_cast<da_fp16::wider_t<T>>(scale_factor)));
             }
-- 
2.43.0


From 315b8143caf3c71f7baf414ddb4ac73eb08ab9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 033/106] fix: harmonic mean of data containing a zero is zero

---
 source/core/basic_statistics/moment_statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/basic_statistics/moment_statistics.cpp b/source/core/basic_statistics/moment_statistics.cpp
index 08a2c0d..e9608f0 100644
--- a/source/core/basic_statistics/moment_statistics.cpp
+++ b/source/core/basic_statistics/moment_statistics.cpp
@@ -70,7 +70,7 @@ template <typename T> inline __attribute__((__always_inline__)) T log_sum(T x) {
 }
 
 template <typename T> inline __attribute__((__always_inline__)) T inverse_sum(T x) {
-    return (x == (T)0.0) ? (T)0.0 : (T)1.0 / x;
+    return (x == (T)0.0) ? std::numeric_limits<T>::infinity() : (T)1.0 / x;
 }
 
 template <typename T>
-- 
2.43.0


From 7d683c0a7853e7b01d0cd7ed8fbeec4eb116a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 034/106] fix: quantile rejects a NaN quantile request

---
 source/core/basic_statistics/order_statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/basic_statistics/order_statistics.cpp b/source/core/basic_statistics/order_statistics.cpp
index bb3d886..5f05773 100644
--- a/source/core/basic_statistics/order_statistics.cpp
+++ b/source/core/basic_statistics/order_statistics.cpp
@@ -113,7 +113,7 @@ inline da_status get_quantile_indices(const T *q, da_int n_q, da_int length,
                                       da_quantile_type quantile_type,
                                       std::vector<double> &h) {
     for (da_int i = 0; i < n_q; ++i) {
-        if (q[i] < 0 || q[i] > 1)
+        if (!(q[i] >= 0 && q[i] <= 1)) // Also rejects NaN
             return da_status_invalid_input;
 
         double qi = static_cast<double>(q[i]);
-- 
2.43.0


From 388318b292d32c5b4055ffa6d5319a61f1e80ae2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 035/106] fix: CSV tokenizer keeps room for the remaining data
 when padding short rows

---
 source/core/csv/tokenizer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 43bd491..28e1737 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -551,8 +551,10 @@ static int end_line(parser_t *self) {
     } else {
         // missing trailing delimiters
         if ((self->lines >= self->header_end + 1) && fields < ex_fields) {
-            // might overrun the buffer when closing fields
-            if (make_stream_space(self, ex_fields - fields) < 0) {
+            // might overrun the buffer when closing fields; keep room for the data yet to be
+            // tokenized (datapos is only updated once the whole chunk has been consumed)
+            if (make_stream_space(self, (ex_fields - fields) +
+                                            (self->datalen - self->datapos)) < 0) {
                 int64_t bufsize = 100;
                 self->error_msg = malloc(bufsize);
                 snprintf(self->error_msg, bufsize, "out of memory");
-- 
2.43.0


From 966cbed9f0c94560d8fe945d1be054d54e583c69 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 036/106] fix: CSV tokenizer keeps a delimiter which follows an
 ignored \r-terminated line

---
 source/core/csv/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 28e1737..39af528 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -1149,7 +1149,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL_NOP: // inside an ignored comment line
             self->state = START_RECORD;
             // \r line terminator -- parse this character again
-            if (c != '\n' && !IS_DELIMITER(c)) {
+            if (c != '\n') {
                 --i;
                 --buf;
             }
-- 
2.43.0


From d5f76bfa95431357477c5864caaa135dd34f130b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 037/106] fix: CSV tokenizer re-read earlier lines on a line
 starting with white space

---
 source/core/csv/tokenizer.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 39af528..2bd3435 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -861,28 +861,26 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
 
         case WHITESPACE_LINE:
             if (IS_TERMINATOR(c)) {
+                slen = self->word_start; // discard the white space
+                stream = self->stream + slen;
                 self->file_lines++;
                 self->state = START_RECORD;
                 break;
             } else if (IS_CARRIAGE(c)) {
+                slen = self->word_start;
+                stream = self->stream + slen;
                 self->file_lines++;
                 self->state = EAT_CRNL_NOP;
                 break;
             } else if (!self->delim_whitespace) {
-                if (isblank(c) && c != self->delimiter) {
-                } else { // backtrack
-                    // use i + 1 because buf has been incremented but not i
-                    do {
-                        --buf;
-                        --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf));
-
-                    // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf)) {
-                        ++buf; // move pointer to first char after newline
-                        ++i;
-                    }
-                    self->state = START_FIELD;
+                // The line is not empty after all: whatever white space was stored is the
+                // start of its first field, so tokenize this character in that field
+                if (!isblank(c) || c == self->delimiter) {
+                    --buf;
+                    --i;
+                    self->state = slen > (uint64_t)self->word_start ? IN_FIELD : START_FIELD;
+                } else if (slen > (uint64_t)self->word_start || !IS_SKIPPABLE_SPACE(c)) {
+                    PUSH_CHAR(c);
                 }
                 break;
             }
@@ -954,6 +952,10 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     }
                     break;
                 } else if (c != self->delimiter && self->skip_empty_lines) {
+                    // store the white space in case the line turns out not to be empty
+                    if (!IS_SKIPPABLE_SPACE(c)) {
+                        PUSH_CHAR(c);
+                    }
                     self->state = WHITESPACE_LINE;
                     break;
                 }
-- 
2.43.0


From 425791d430113092acbb2f0a76a4df8baa163219 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 038/106] fix: CSV tokenizer skipped two lines for an empty
 \r-terminated line and ignored quoting after a leading delimiter

---
 source/core/csv/tokenizer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 2bd3435..0f8062c 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -914,6 +914,11 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             } else if (should_skip) {
                 if (IS_QUOTE(c)) {
                     self->state = IN_QUOTED_FIELD_IN_SKIP_LINE;
+                } else if (IS_CARRIAGE(c)) {
+                    self->file_lines++;
+                    self->state = EAT_CRNL_NOP;
+                } else if (IS_DELIMITER(c)) {
+                    self->state = START_FIELD_IN_SKIP_LINE;
                 } else {
                     self->state = IN_FIELD_IN_SKIP_LINE;
 
-- 
2.43.0


From c955117ff26e29d08d448c6642f1503df90291f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 039/106] fix: CSV tokenizer applies skipping and empty-line
 rules after a \r followed by a delimiter

---
 source/core/csv/tokenizer.c | 22 ----------------------
 1 file changed, 22 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 0f8062c..205ef9b 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -708,21 +708,6 @@ static int parser_buffer_bytes(parser_t *self, size_t nbytes,
         goto linelimit;                                                                  \
     }
 
-#define END_LINE_AND_FIELD_STATE(STATE)                                                  \
-    self->stream_len = slen;                                                             \
-    if (end_line(self) < 0) {                                                            \
-        goto parsingerror;                                                               \
-    }                                                                                    \
-    if (end_field(self) < 0) {                                                           \
-        goto parsingerror;                                                               \
-    }                                                                                    \
-    stream = self->stream + self->stream_len;                                            \
-    slen = self->stream_len;                                                             \
-    self->state = STATE;                                                                 \
-    if (line_limit > 0 && self->lines == start_lines + line_limit) {                     \
-        goto linelimit;                                                                  \
-    }
-
 #define END_LINE() END_LINE_STATE(START_RECORD)
 
 #define IS_TERMINATOR(c) (c == lineterminator)
@@ -1113,13 +1098,6 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL:
             if (c == '\n') {
                 END_LINE();
-            } else if (IS_DELIMITER(c)) {
-                if (self->delim_whitespace) {
-                    END_LINE_STATE(EAT_WHITESPACE);
-                } else {
-                    // Handle \r-delimited files
-                    END_LINE_AND_FIELD_STATE(START_FIELD);
-                }
             } else {
                 if (self->delim_whitespace) {
                     /* 
-- 
2.43.0


From 5b1a32239bd5d7427585b6ed480a5867fd623176 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 040/106] fix: CSV tokenizer dropped byte order marks in the
 middle of the first line

---
 source/core/csv/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 205ef9b..2275697 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -780,7 +780,9 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
 
     TRACE(("%s\n", buf));
 
-    if (self->file_lines == 0) {
+    // A byte order mark can only be the first three bytes of the file
+    if (self->file_lines == 0 && self->lines == 0 && self->state == START_RECORD &&
+        self->datapos == 0 && self->datalen >= 3) {
         CHECK_FOR_BOM();
     }
 
-- 
2.43.0


From 984bfc7a510d2f196a627dadf88af0f5273bccc5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 041/106] fix: CSV texts ending inside quotes are refused
 instead of silently dropping rows

---
 source/core/csv/read_csv.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..04419ec 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -100,9 +100,15 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
 
     istatus = tokenize_all_rows(parser, encoding_errors);
     if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+        if (istatus == PARSER_OUT_OF_MEMORY) {
+            status = da_error(csv->err, da_status_memory_error, // LCOV_EXCL_LINE
+                              "Memory allocation failure");     // LCOV_EXCL_LINE
+        } else {
+            status = da_error(csv->err, da_status_parsing_error,
+                              parser->error_msg ? parser->error_msg
+                                                : "The CSV file could not be parsed.");
+        }
+        goto exit;
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
-- 
2.43.0


From 6773d81af3304cc0ae46db5293c4a0bfbcfe1aeb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 042/106] fix: CSV string fields of white space only are
 trimmed like all others

---
 source/core/csv/char_to_num.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..9d7a093 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -715,25 +715,27 @@ inline da_status char_to_num([[maybe_unused]] parser_t *parser, const char *str,
 
     char *p = (char *)str;
     size_t len = strlen(p);
-    (*endptr) = p + len - 1;
 
     if (parser->skipinitialspace) {
-        while (p < (*endptr) && isspace_ascii(*p))
+        while (len > 0 && isspace_ascii(*p)) {
             p++;
+            len--;
+        }
     }
 
-    while ((*endptr) > p && isspace_ascii(*(*endptr)))
-        (*endptr)--;
+    while (len > 0 && isspace_ascii(p[len - 1]))
+        len--;
 
-    len = (*endptr) - p + 1;
+    (*endptr) = p + len;
 
     *store = (char *)malloc(sizeof(char) * (1 + len));
-    memset(*store, '\0', 1 + len);
 
     if (*store == NULL) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
 
+    memset(*store, '\0', 1 + len);
+
 /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
     strncpy_s(*store, 1 + len, p, len);
-- 
2.43.0


From 1beaf0a215fe1c373b88f4a6cf186e1f47f2ff84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 043/106] fix: failed CSV reads used and freed whatever the
 caller's variables held

---
 source/core/csv/read_csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 04419ec..08f565d 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -303,6 +303,11 @@ inline da_status parse_and_process(csv_reader *csv, const char *filename, T **a,
 
     da_status error = da_status_success, tmp_error = da_status_success;
 
+    // Failed calls return without setting the outputs, which must not be read or freed below
+    *a = nullptr;
+    *nrows = 0;
+    *ncols = 0;
+
     error = parse_file(csv, filename);
 
     if (error != da_status_success) {
-- 
2.43.0


From d831480a37b8c85e0308d92beb10458b4323d916 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 044/106] fix: a CSV row start of 0 undoes an earlier one

---
 source/core/csv/tokenizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 2275697..cb7cab1 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -628,7 +628,8 @@ void parser_store_skipped_row(parser_t *self, int64_t row) {
 
 int parser_set_skipfirstnrows(parser_t *self, int64_t nrows) {
     // self->file_lines is zero based so subtract 1 from nrows
-    if (nrows > 0) {
+    // (with nrows equal to 0 no rows are skipped)
+    if (nrows >= 0) {
         self->skip_first_N_rows = nrows - 1;
     }
 
-- 
2.43.0


From 31b3ed4e9f8e762c94f29eb0e5ccd1ad57cdd91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 045/106] fix: CSV fields which merely start like a number were
 read as that number

---
 source/core/csv/char_to_num.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 9d7a093..0d0bfc0 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -234,6 +234,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -388,6 +392,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
-- 
2.43.0


From 06b71fbd184aee2267de31f757b02a13bb5841dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 046/106] fix: CSV numbers read past the end of the field when
 the decimal or scientific character is empty

---
 source/core/csv/char_to_num.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 0d0bfc0..98c010e 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -144,7 +144,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -174,7 +174,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
@@ -302,7 +302,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -332,7 +332,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
-- 
2.43.0


From b56fba740b4967f8498db1016ed36e162c5e26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 047/106] fix: CSV numbers with long exponents overflowed and
 zeros with large exponents were refused

---
 source/core/csv/char_to_num.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 98c010e..451bd33 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -191,8 +191,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
+        while (isdigit_ascii(*p)) {
+            if (n < 100000000) // Far beyond any representable exponent
+                n = n * 10 + (*p - '0');
             num_digits++;
             p++;
         }
@@ -207,7 +208,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p--;
     }
 
-    if (exponent > 308) {
+    if (*number == 0.) {
+        // Zero, whatever the exponent
+    } else if (exponent > 308) {
         *number = HUGE_VAL;
         status = da_status_parsing_error;
         return status;
@@ -349,8 +352,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
+        while (isdigit_ascii(*p)) {
+            if (n < 100000000) // Far beyond any representable exponent
+                n = n * 10 + (*p - '0');
             num_digits++;
             p++;
         }
@@ -365,7 +369,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p--;
     }
 
-    if (exponent > 38) {
+    if (*number == 0.f) {
+        // Zero, whatever the exponent
+    } else if (exponent > 38) {
         *number = HUGE_VALF;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From d1bd260e7ee662883de8502ec0e4aa380b154af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 048/106] fix: CSV numbers lost their value after leading zeros
 in the decimals

---
 source/core/csv/char_to_num.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 451bd33..5e8024a 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -129,15 +129,19 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     exponent = 0;
     num_digits = 0;
     num_decimals = 0;
+    bool any_digits = false;
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
         if (num_digits < max_digits) {
             *number = *number * 10. + (*p - '0');
-            num_digits++;
+            // Leading zeros are not significant digits
+            if (*number != 0)
+                num_digits++;
         } else {
             ++exponent;
         }
+        any_digits = true;
 
         p++;
         p += (tsep != '\0' && *p == tsep);
@@ -152,8 +156,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         while (num_digits < max_digits && isdigit_ascii(*p)) {
             *number = *number * 10. + (*p - '0');
             p++;
-            num_digits++;
+            if (*number != 0)
+                num_digits++;
             num_decimals++;
+            any_digits = true;
         }
 
         if (num_digits >= max_digits) // Consume extra decimal digits.
@@ -163,7 +169,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
@@ -290,15 +296,19 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     exponent = 0;
     num_digits = 0;
     num_decimals = 0;
+    bool any_digits = false;
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
         if (num_digits < max_digits) {
             *number = *number * 10.f + (*p - '0');
-            num_digits++;
+            // Leading zeros are not significant digits
+            if (*number != 0)
+                num_digits++;
         } else {
             ++exponent;
         }
+        any_digits = true;
 
         p++;
         p += (tsep != '\0' && *p == tsep);
@@ -313,8 +323,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         while (num_digits < max_digits && isdigit_ascii(*p)) {
             *number = *number * 10.f + (*p - '0');
             p++;
-            num_digits++;
+            if (*number != 0)
+                num_digits++;
             num_decimals++;
+            any_digits = true;
         }
 
         if (num_digits >= max_digits) // Consume extra decimal digits.
@@ -324,7 +336,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From 3e67958bb4e6fa0a75d6b6e6d80215ccda2cf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 049/106] fix: CSV booleans followed by other text were
 accepted

---
 source/core/csv/char_to_num.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 5e8024a..e5d865e 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -706,24 +706,27 @@ inline da_status char_to_num([[maybe_unused]] parser_t *parser, const char *str,
         ++p;
     }
 
+    uint8_t value;
     if (strncasecmp(p, "TRUE", 4) == 0) {
-        if (strlen(p) > 4 && !isspace_ascii(p[4])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 1;
-        }
+        value = 1;
+        p += 4;
     } else if (strncasecmp(p, "FALSE", 5) == 0) {
-        if (strlen(p) > 5 && !isspace_ascii(p[5])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 0;
-        }
+        value = 0;
+        p += 5;
     } else {
         return status;
     }
 
+    // Skip trailing spaces, after which all the characters must have been used
+    while (isspace_ascii(*p)) {
+        ++p;
+    }
+    if (*p)
+        return status;
+
+    status = da_status_success;
+    *number = value;
+
     if (maybe_int != NULL)
         *maybe_int = 1;
     if (endptr)
-- 
2.43.0


From 46d03d5682bd0e75c816adb053740e0cb9348bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 050/106] fix: saved SVM models lost the low precision
 iteration counts and querying them read out of bounds

---
 source/core/svm/svm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..05d410b 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -63,6 +63,8 @@ template <typename T> svm<T>::svm(da_errors::da_error_t &err) : basic_handle<T>(
     // Any error is stored err->status[.] and this needs to be checked
     // by the caller.
     register_svm_options<T>(this->opts, err);
+    // v5.3.2: low precision iteration counts are stored
+    this->serialization_version = 50302;
 }
 
 template <typename T> svm<T>::~svm() {
@@ -1558,6 +1560,7 @@ template <typename T> da_status svm<T>::serialize(serialization_buffer &buffer)
     io_dispatch(this->support_indexes);
     io_dispatch(this->n_sv_per_class);
     io_dispatch(this->n_iteration);
+    io_dispatch(this->lp_n_iteration);
 
     if (status == da_status_success) {
         status = serialize_classifiers(buffer);
-- 
2.43.0


From 7a29677e04f03b818ac797c3424c144ccfd80652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 051/106] fix: saved k-means models lost the low precision
 iteration count

---
 source/core/clustering/kmeans/kmeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 9102f60..4cb8a66 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -119,6 +119,8 @@ kmeans<T>::kmeans(da_errors::da_error_t &err) : basic_handle<T>(err) {
     // Any error is stored err->status[.] and this needs to be checked
     // by the caller.
     register_kmeans_options<T>(this->opts, *this->err);
+    // v5.3.2: the low precision iteration count is stored
+    this->serialization_version = 50302;
 };
 
 template <typename T>
@@ -1896,6 +1898,7 @@ template <typename T> da_status kmeans<T>::serialize(serialization_buffer &buffe
     io_dispatch(this->n_samples);
     io_dispatch(this->n_features);
     io_dispatch(this->best_n_iter);
+    io_dispatch(this->best_lp_n_iter);
     io_dispatch(this->best_inertia);
     io_dispatch(this->seed);
     io_dispatch(this->n_clusters);
-- 
2.43.0


From 69cf7275fd9382684ca87b06344d62c57007b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 052/106] fix: saved decision forests lost the number of
 threads per tree reported by da_rinfo

---
 source/core/decision_forest/forest/decision_forest.cpp          | 1 +
 .../decision_forest/forest/decision_forest_handle_utilities.hpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..0b0eef3 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -85,6 +85,7 @@ decision_forest<T>::serialize(da_model_persistence::serialization_buffer &buffer
     io_dispatch(this->block_size);
     io_dispatch(this->use_hist);
     io_dispatch(this->usr_max_bins);
+    io_dispatch(this->n_tree_threads);
 
     if (status != da_status_success)
         return status;
diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..0bf927b 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -44,6 +44,8 @@ decision_forest<T>::decision_forest(da_errors::da_error_t &err) : basic_handle<T
     // Any error is stored err->status[.] and this NEEDS to be checked
     // by the caller.
     register_forest_options<T>(this->opts, *this->err);
+    // v5.3.2: the number of threads used per tree is stored
+    this->serialization_version = 50302;
 }
 
 template <typename T> decision_forest<T>::~decision_forest() {
-- 
2.43.0


From 937fa68aab03346792a2f80d3153a04d9f15add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 053/106] fix: da_rinfo of a loaded conjugate gradient linear
 model dereferenced a null solver

---
 source/core/linear_model/linear_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 4ea1f70..751226c 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -296,7 +296,8 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             result[da_linmod_info_t::linmod_info_time] = time;
         }
         // For CG we have member function that fills n_iter and gradient of loss
-        if (method_id == linmod_method::cg) {
+        // (the solver object does not exist in a loaded model)
+        if (method_id == linmod_method::cg && !this->model_loaded) {
             if constexpr (std::is_same_v<T, _Float16>) {
                 // Unreachable: cg is rejected at fit time for _Float16.
                 return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
-- 
2.43.0


From 20d1ab0f9ad5cb336ceba200c7d1d1f701f32636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 054/106] fix: a loaded linear model trained again kept hiding
 the results of the new fit

---
 source/core/linear_model/linear_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 751226c..a3f5aa6 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -1239,6 +1239,8 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
     }
 
     this->model_trained = true;
+    // The solver and user data are now available even if the handle was loaded from a file
+    this->model_loaded = false;
     return da_status_success;
 }
 
-- 
2.43.0


From 96ba392fa798726eec7d13af691624f298debffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 055/106] fix: loading a model file that names no model
 dereferenced a null handle

---
 source/core/utilities/da_handle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..42dcce0 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -118,13 +118,15 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        if (handle->alg_handle_s != nullptr)
+            status = handle->alg_handle_s->load_model(buffer);
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        if (handle->alg_handle_d != nullptr)
+            status = handle->alg_handle_d->load_model(buffer);
     }
 
     if (status != da_status_success ||
-- 
2.43.0


From 1c5f1cb5dd8363491a2b03995cefdcc5524c7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 056/106] fix: da_handle_save_model reported success when the
 file could not be written out

---
 source/core/utilities/da_handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 42dcce0..17659e4 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -92,11 +92,12 @@ da_status _da_handle::save_handle(const std::string &file_name) {
                         "Error while opening/creating save file."); // LCOV_EXCL_LINE
     }
     file.write(buffer_data.data(), buffer_data.size());
+    // The data may only reach the file when the stream is closed
+    file.close();
     if (!file) {
         return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
                         "Failed to write to file.");   // LCOV_EXCL_LINE
     }
-    file.close();
 
     return status;
 }
-- 
2.43.0


From 8393e0c6be2429b651148c26051761cf597636c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 057/106] fix: a corrupted element count in a model file made
 loading request eight times its size

---
 source/core/utilities/model_persistence.cpp | 10 +++++++++-
 source/core/utilities/model_persistence.hpp |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..89be04a 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -311,7 +311,15 @@ da_status serialization_buffer::deserialize_container_impl(Container &data) {
     std::memcpy(&vec_size, this->read_ptr + this->offset, sizeof(vec_size));
     this->offset += sizeof(vec_size);
 
-    if (vec_size < 0 || (size_t)vec_size > (this->get_size() - this->offset)) {
+    // Every element takes at least this many bytes in the stream (a nested container
+    // stores its own length first).
+    size_t min_element_size;
+    if constexpr (is_valid_scalar<ValT>)
+        min_element_size = sizeof(save_type_t<ValT>);
+    else
+        min_element_size = sizeof(int_save_t);
+
+    if (vec_size < 0 || (size_t)vec_size > this->get_remaining() / min_element_size) {
         return da_status_invalid_file_data;
     }
 
diff --git a/source/core/utilities/model_persistence.hpp b/source/core/utilities/model_persistence.hpp
index cca9bf8..3a11f4b 100644
--- a/source/core/utilities/model_persistence.hpp
+++ b/source/core/utilities/model_persistence.hpp
@@ -194,6 +194,9 @@ class serialization_buffer {
     }
 
     size_t get_size() const noexcept { return this->size; }
+    // Number of bytes that have not been read yet, used to check the number of elements
+    // announced by a file before allocating memory for them.
+    size_t get_remaining() const noexcept { return this->size - (size_t)this->offset; }
     // Addition method for the size member
     da_status add_size(size_t value);
 
-- 
2.43.0


From 522c773e109d192345ea28bb92d30694b7ec6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:56 +0000
Subject: [PATCH 058/106] fix: corrupted node, tree or classifier counts in a
 model file escaped as exceptions or exhausted memory

---
 source/core/decision_forest/forest/decision_forest.cpp       | 4 ++++
 .../decision_forest/tree/decision_tree_handle_utilities.hpp  | 3 ++-
 source/core/nearest_neighbors/binary_tree.cpp                | 3 +++
 source/core/svm/svm.cpp                                      | 5 +++++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index 0b0eef3..622933d 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,6 +43,10 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        // Every tree takes some space in the buffer
+        if (this->n_tree < 0 || (size_t)this->n_tree > buffer.get_remaining())
+            return da_status_invalid_file_data;
+
         try {
             this->forest.resize(n_tree);
             for (da_int i = 0; i < this->n_tree; ++i) {
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..cdde1f6 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -292,7 +292,8 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        if (this->n_nodes <= 0)
+        // Every node takes some space in the buffer
+        if (this->n_nodes <= 0 || (size_t)this->n_nodes > buffer.get_remaining())
             return da_status_invalid_file_data;
 
         try {
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index f31e3e8..d342786 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -577,6 +577,9 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
 
+    if (status != da_status_success)
+        return status;
+
     status = this->tree_serialization(buffer, this->root);
 
     return status;
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 05d410b..58f7964 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1491,6 +1491,11 @@ da_status svm<T>::serialize_classifiers(serialization_buffer &buffer) {
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        // Every classifier takes some space in the buffer
+        if (this->n_classifiers < 0 ||
+            (size_t)this->n_classifiers > buffer.get_remaining())
+            return da_status_invalid_file_data;
+
         try {
             this->classifiers.resize(this->n_classifiers);
             for (da_int i = 0; i < this->n_classifiers; ++i) {
-- 
2.43.0


From a5d120b9db52191eace7e478f5958108f4e2208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:56 +0000
Subject: [PATCH 059/106] fix: loading a model stored option values from the
 file without validating them

---
 source/core/utilities/options.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..2cb3f4e 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -517,7 +517,14 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // Accept only the values that could have been set
+        if (this->set(saved_value, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -761,7 +768,14 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // Accept only the values that could have been set
+        if (this->set(saved_value, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From 7158ba956b91d3f236498258c6fe0252f91b1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:37 +0000
Subject: [PATCH 060/106] fix: loading a forest with a corrupted tree count
 created every tree before reading the first

---
 .../decision_forest/forest/decision_forest.cpp  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index 622933d..f8d8b69 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -49,9 +49,6 @@ da_status decision_forest<T>::forest_serialization(
 
         try {
             this->forest.resize(n_tree);
-            for (da_int i = 0; i < this->n_tree; ++i) {
-                this->forest[i] = std::make_unique<decision_tree<T>>();
-            }
         } catch (std::bad_alloc const &) {
             return da_error(this->err, da_status_memory_error,
                             "Failing to allocate enough memory."); // LCOV_EXCL_LINE
@@ -61,6 +58,14 @@ da_status decision_forest<T>::forest_serialization(
     for (da_int i = 0; i < this->n_tree; ++i) {
         if (status != da_status_success)
             return status;
+        if (buffer.get_mode() == deserialize) {
+            try {
+                this->forest[i] = std::make_unique<decision_tree<T>>();
+            } catch (std::bad_alloc const &) {
+                return da_error(this->err, da_status_memory_error,
+                                "Failing to allocate enough memory."); // LCOV_EXCL_LINE
+            }
+        }
         status = this->forest[i]->serialize(buffer);
     }
     return status;
@@ -121,8 +126,12 @@ da_status
 decision_forest<T>::load_model(da_model_persistence::serialization_buffer &buffer) {
 
     da_status status = basic_handle<T>::load_model(buffer);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        // Do not leave a partially loaded forest behind
+        this->model_trained = false;
+        this->forest.clear();
         return da_error_trace(this->err, status, "Failure deserializing model.");
+    }
 
     return status;
 }
-- 
2.43.0


From 53054dcd125705ce5423d83e4ea0820a7cebca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 061/106] fix: L-BFGS-B could evaluate the objective at points
 just outside the bounds

---
 external/Lbfgsb.3.0/lbfgsb.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/external/Lbfgsb.3.0/lbfgsb.F90 b/external/Lbfgsb.3.0/lbfgsb.F90
index 2cfc97f..4166714 100644
--- a/external/Lbfgsb.3.0/lbfgsb.F90
+++ b/external/Lbfgsb.3.0/lbfgsb.F90
@@ -2603,6 +2603,13 @@
             x(i) = stp*d(i) + t(i)
           End Do
         End If
+!        Rounding errors may place the trial point slightly outside the bounds
+        If (cnstnd) Then
+          Do i = 1, n
+            If (nbd(i)==1 .Or. nbd(i)==2) x(i) = max(x(i), l(i))
+            If (nbd(i)==2 .Or. nbd(i)==3) x(i) = min(x(i), u(i))
+          End Do
+        End If
       Else
         task = 'NEW_X'
       End If
-- 
2.43.0


From d7b5207ecb1fe39949fd1eda22f8ea8fee9c1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 062/106] fix: the L-BFGS-B driver kept calling the solver and
 the callbacks after a callback failed

---
 source/core/drivers/lbfgsb_driver.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/drivers/lbfgsb_driver.hpp b/source/core/drivers/lbfgsb_driver.hpp
index 8fd2e47..b23a651 100644
--- a/source/core/drivers/lbfgsb_driver.hpp
+++ b/source/core/drivers/lbfgsb_driver.hpp
@@ -315,10 +315,12 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
             if (objfun(n, &x[0], f, usrdata) != 0) {
                 // This solver does not have recovery, stop
                 itask = 120;
+                break;
             }
             if (objgrd(n, &x[0], &g[0], usrdata, 0)) {
                 // This solver does not have recovery, stop
                 itask = 121;
+                break;
             }
         }
     }
-- 
2.43.0


From 7113fd0598144043dd0af70410322d4c9448902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 063/106] fix: L-BFGS-B went on after NaN values and reported
 success at points that are not stationary or not finite

---
 source/core/drivers/lbfgsb_driver.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/core/drivers/lbfgsb_driver.hpp b/source/core/drivers/lbfgsb_driver.hpp
index b23a651..f2d8d3b 100644
--- a/source/core/drivers/lbfgsb_driver.hpp
+++ b/source/core/drivers/lbfgsb_driver.hpp
@@ -31,6 +31,7 @@
 #include "lbfgsb.hpp"
 #include "macros.h"
 #include "options.hpp"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -312,12 +313,13 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
                      itask == 20;   // 'FG_LNSRCH
         if (compute_fg) {
             ++info[da_linmod_info_t::linmod_info_nevalf];
-            if (objfun(n, &x[0], f, usrdata) != 0) {
+            if (objfun(n, &x[0], f, usrdata) != 0 || std::isnan(*f)) {
                 // This solver does not have recovery, stop
                 itask = 120;
                 break;
             }
-            if (objgrd(n, &x[0], &g[0], usrdata, 0)) {
+            if (objgrd(n, &x[0], &g[0], usrdata, 0) ||
+                std::any_of(g.begin(), g.end(), [](T gi) { return std::isnan(gi); })) {
                 // This solver does not have recovery, stop
                 itask = 121;
                 break;
@@ -335,6 +337,12 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
         // 'CONVERGENCE: NORM_OF_PROJECTED_GRADIENT_<=_PGTOL', 7 out:success
     case 8:
         // 'CONVERGENCE: REL_REDUCTION_OF_F_<=_FACTR*EPSMCH', 8 out:success
+        // An infinite objective satisfies the convergence tests
+        if (!std::isfinite(*f) ||
+            !std::all_of(g.begin(), g.end(), [](T gi) { return std::isfinite(gi); }))
+            return da_warn(&err, da_status_numerical_difficulties,
+                           "The objective function or its gradient is not finite at the "
+                           "last point");
         return da_status_success;
         break;
     case 3:
-- 
2.43.0


From 8054e4277d9e6cf12f8cdcd1be9e5dc5c421425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:51 +0000
Subject: [PATCH 064/106] fix: nonlinear least squares called a null
 Hessian-product callback after an earlier fit had one

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index 04f8801..f14c7d3 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -535,7 +535,7 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
 
   logical :: f_arrays
   logical :: lb_sent_in, ub_sent_in, w_sent_in
-  logical :: hp_sent_in = .false.
+  logical :: hp_sent_in
 
   ! copy data in and associate pointers correctly
   call copy_options_in(coptions, foptions, f_arrays)
@@ -555,7 +555,7 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
   endif
 
   fparams%params = params
-  if (C_ASSOCIATED(hp)) hp_sent_in = .true.
+  hp_sent_in = C_ASSOCIATED(hp)
 
   ! the following steps for passing optional arguments
   ! requires a compiler compatible with Fortran 2008+TS29113
-- 
2.43.0


From ac4fde17c13564643df11de9e1ca35ed34aed688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 065/106] fix: the Hessian-product callback of a nonlinear
 least squares fit was called through an unset pointer

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index f14c7d3..e9f7c14 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -556,6 +556,8 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
 
   fparams%params = params
   hp_sent_in = C_ASSOCIATED(hp)
+  nullify(fparams%hp)
+  if (hp_sent_in) call c_f_procpointer(hp, fparams%hp)
 
   ! the following steps for passing optional arguments
   ! requires a compiler compatible with Fortran 2008+TS29113
-- 
2.43.0


From a3ddcbdcdbe841f8c88ed67bfbb96993d20b5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 066/106] fix: the Hessian-product callback received the
 addresses of the sizes instead of the sizes

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index e9f7c14..752cfad 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -175,7 +175,7 @@ module MODULE_PREC(ral_nlls_ciface)
        use, intrinsic :: iso_c_binding
        use :: MODULE_PREC(ral_nlls_types)
        implicit none
-       integer(ral_c_int) :: n,m
+       integer(ral_c_int), value :: n,m
        real(ral_c_real), dimension(*), intent(in)  :: x
        real(ral_c_real), dimension(*), intent(in)  :: y
        real(ral_c_real), dimension(*), intent(out) :: hp
-- 
2.43.0


From f7140de537546ddc2166b2c07861dcc3e6205a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 067/106] fix: after a Jacobian failure nonlinear least squares
 differenced from weighted residuals and dropped the regularisation gradient

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 5d0e98c..ca99d6d 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3515,7 +3515,7 @@ lp:  do i = 1, options%more_sorensen_maxits
        real (wp) :: normjfnew
 
        ! Inform FD machinery to use x and f
-       call iparams_set(params, x=x, f=w%f)
+       call iparams_set(params, x=x, f=w%f, weights=weights)
 
        call eval_J(inform%external_return, n, m, X(1:n), w%J, params)
        inform%g_eval = inform%g_eval + 1
@@ -3536,6 +3536,7 @@ lp:  do i = 1, options%more_sorensen_maxits
        else
           call mult_Jt(w%J,n,m,w%f,w%g,options%Fortran_Jacobian)
           w%g(:) = -w%g(:)
+          if ( options%regularization > 0 ) call update_regularized_gradient(w%g,X,norm2(X(1:n)),options)
        end if
 
        normjfnew = norm2(x=w%g)
-- 
2.43.0


From 6829379af2ed0326881e0426edd66d57e38c9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 068/106] fix: nonlinear least squares accepted steps that
 increase the objective when the model predicted no change

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index ca99d6d..d34eb85 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3130,6 +3130,10 @@ lp:  do i = 1, options%more_sorensen_maxits
 
        if ( abs(actual_reduction) < tol ) then
           rho = 1.0_wp
+       else if (actual_reduction < 0.0_wp) then
+          ! never accept a step that increases the cost function, whatever
+          ! the model predicted
+          rho = -1.0_wp
        else if (abs( predicted_reduction ) < tol ) then
           rho = 1.0_wp
        else
-- 
2.43.0


From ceaba53190afb4604aafac641e52a3f04fc7c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 069/106] fix: nonlinear least squares evaluated and returned
 points a rounding error outside the bounds

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index d34eb85..ca389cd 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -4922,6 +4922,10 @@ lp:    do i = 1, w%tensor_options%maxit
         End If
 armijo: Do
           xnew(1:n) = x(1:n) + alpha*box_ws%pdir(1:n)
+          ! x + (P(x+d)-x) can fall outside of the box by a rounding error
+          If (box_ws%has_box) Then
+            xnew(1:n) = max(min(box_ws%bux(1:n), xnew(1:n)), box_ws%blx(1:n))
+          End If
           evalok = .True.
           falpn = infinity
 !         ======================================================================
-- 
2.43.0


From c37f7c41c89fb1ccb999a8cd536412dfd3b58698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 070/106] fix: nonlinear least squares looped forever when
 every fall-back subproblem solver failed

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index ca389cd..ca5eb5a 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1443,7 +1443,9 @@ lp: do while (.not. success)
              ! If we're using a method for the second time, or
              ! we're not allowing a fallback, then bail with an
              ! appropiate exit code
+             ! (the chain of fall-backs need not lead back to the first one)
              if ( (subproblem_method == options%nlls_method) .or. &
+                  (num_methods_tried >= 4) .or. &
                   (.not. options%allow_fallback_method)) Then
                   ! Force no progress error if fall-back was tried otherwise
                   ! keep existing error status
-- 
2.43.0


From f5d445992efa3feda0cf18533acc4217f703690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 071/106] fix: the aint subproblem solver preferred a step that
 was not a number, which bounds turned into a false convergence

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index ca5eb5a..f8956d0 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -2021,7 +2021,8 @@ lp: do while (.not. success)
           options,inform,w%evaluate_model_ws)
      if (inform%status /= 0) goto 100
      ! what gives the smallest objective: p0 or p1?
-     if (obj_p0 < obj_p1) then
+     ! (p1 may be unusable: never choose it when its objective is not a number)
+     if (obj_p0 < obj_p1 .or. obj_p1 /= obj_p1) then
         d = w%p0
         If (buildmsg(5,.False.,options)) Then
           Write(rec(1), Fmt=2030) 'p0'
-- 
2.43.0


From 301c2ca96246ee8329817a65d7697728f0c1c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 072/106] fix: floats between 2^-25 and 2^-24 were converted to
 half zero instead of the smallest subnormal

---
 source/core/utilities/fp16_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/utilities/fp16_helpers.hpp b/source/core/utilities/fp16_helpers.hpp
index ccbf383..7550151 100644
--- a/source/core/utilities/fp16_helpers.hpp
+++ b/source/core/utilities/fp16_helpers.hpp
@@ -139,7 +139,7 @@ inline uint16_t f32_to_f16_bits(float a) {
         }
         return sign | static_cast<uint16_t>((exponent + 15) << 10) | hmant;
     }
-    if (exponent >= -24) {
+    if (exponent >= -25) { // 2^-25 is the midpoint between zero and the smallest subnormal
         mantissa |= 0x800000u;
         int32_t shift = 13 - (exponent + 14);
         uint16_t hmant = static_cast<uint16_t>(mantissa >> shift);
-- 
2.43.0


From e56a2f4c8434acc44d23cd07a4eb797706e4c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 073/106] fix: automatic DBSCAN used a k-d tree for the cosine
 and squared Euclidean metrics, which it does not support

---
 source/core/clustering/dbscan/dbscan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..de5f426 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -253,8 +253,10 @@ template <typename T> da_status dbscan<T>::compute() {
     alg_internal = da_neighbors_types::nn_algorithm(algorithm);
     if (alg_internal == automatic) {
         // If the user has not specified an algorithm, we will use the k-d tree if the data is small
-        // in dimension and the Minkowski options allow it. Otherwise we will use brute force.
-        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0)) {
+        // in dimension and the metric allows it. Otherwise we will use brute force.
+        if (n_features <= 15 && metric_internal != da_cosine &&
+            metric_internal != da_sqeuclidean_gemm &&
+            !(metric_internal == da_minkowski && p < (T)1.0)) {
             alg_internal = kd_tree;
         } else {
             alg_internal = brute;
-- 
2.43.0


From 4a64da6403ae5610ff861e9b4592c5ae45dd89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 074/106] fix: DBSCAN's brute-force search compared squared
 distances with eps for the Minkowski metric with power 2

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..ec83d01 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -62,13 +62,11 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     std::vector<T> A_norms;
     std::vector<std::vector<T>> D;
 
-    // For da_euclidean it is more efficient to use the squared distance
-    T eps_internal = (metric == da_euclidean_gemm) ? eps * eps : eps;
-
-    da_metric metric_internal =
-        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
-            ? da_sqeuclidean_gemm
-            : metric;
+    // For the Euclidean distance it is more efficient to use the squared distance
+    bool use_squared =
+        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)));
+    T eps_internal = use_squared ? eps * eps : eps;
+    da_metric metric_internal = use_squared ? da_sqeuclidean_gemm : metric;
 
     try {
         D.resize(n_threads);
-- 
2.43.0


From 957356572a9fb24be34e442a25103a40f80928fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:42 +0000
Subject: [PATCH 075/106] fix: DBSCAN with several threads merged clusters
 through border points and lost links between core points

---
 source/core/clustering/dbscan/dbscan.cpp | 108 ++++++++++++-----------
 source/core/clustering/dbscan/dbscan.hpp |   1 -
 2 files changed, 58 insertions(+), 51 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index de5f426..a4766d9 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -36,6 +36,7 @@
 #include "pairwise_distances.hpp"
 #include "radius_neighbors.hpp"
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <random>
 #include <set>
@@ -296,14 +297,17 @@ template <typename T> da_status dbscan<T>::compute() {
 /* Compute the DBSCAN clusters using parallel method */
 template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
 
-    da_status status = da_status_success;
-    std::vector<da_int> remap;
     da_int next_id = 0;
     // Add telemetry to the context class
     context_set_hidden_settings("dbscan.setup"s, "clustering=parallel"s);
 
+    // Disjoint-set forest over the core samples: a parent never has a larger index than its
+    // child, so that the root of each tree is the first core sample in its cluster
+    std::vector<std::atomic<da_int>> parent;
+    std::vector<da_int> remap;
+
     try {
-        duplicate_labels.resize(n_samples);
+        parent = std::vector<std::atomic<da_int>>(n_samples);
         remap.resize(n_samples, NOISE);
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
@@ -311,79 +315,83 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
     }
 
     da_std::fill(labels.begin(), labels.end(), NOISE);
-    da_std::fill(duplicate_labels.begin(), duplicate_labels.end(), NOISE);
+
+    auto find_root = [&parent](da_int i) {
+        da_int next = parent[i].load();
+        while (next != i) {
+            // Shorten the path for later searches
+            da_int next_but_one = parent[next].load();
+            parent[i].store(next_but_one);
+            i = next;
+            next = next_but_one;
+        }
+        return i;
+    };
 
 #pragma omp parallel default(none)                                                       \
-    shared(labels, neighbors, n_clusters, n_core_samples, min_samples_m1, n_samples,     \
-               status, duplicate_labels, is_core_sample, next_id, remap)
+    shared(labels, neighbors, n_clusters, n_samples, is_core_sample, next_id, remap,     \
+               parent, find_root)
     {
 
-// Parallel loop to compute DBSCAN clusters
-#pragma omp for schedule(guided, 64)
+#pragma omp for schedule(static)
         for (da_int i = 0; i < n_samples; i++) {
-            if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
+            parent[i].store(i);
+        }
 
-                // Loop through each point in the epsilon neighborhood of point i
-                auto &this_neighbor = neighbors[i];
-                for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
-                    da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
-#pragma omp atomic write
-                        labels[sample_point_j] = i;
-                    }
+// Combine the clusters of any two core samples which are neighbors
+#pragma omp for schedule(guided, 64)
+        for (da_int i = 0; i < n_samples; i++) {
+            if (!is_core_sample[i])
+                continue;
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int neigh = this_neighbor[j];
+                if (!is_core_sample[neigh])
+                    continue;
+                da_int root_i = find_root(i), root_j = find_root(neigh);
+                while (root_i != root_j) {
+                    da_int high = std::max(root_i, root_j), low = std::min(root_i, root_j);
+                    // This fails if another thread got there first, in which case try again
+                    da_int expected = high;
+                    if (parent[high].compare_exchange_strong(expected, low))
+                        break;
+                    root_i = find_root(high);
+                    root_j = find_root(low);
                 }
             }
         }
 
+        // Give each sample the root of its cluster; non-core samples join the first cluster
+        // which has a core sample in their neighborhood
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
+            if (is_core_sample[i]) {
+                labels[i] = find_root(i);
                 continue;
             }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int neigh = this_neighbor[j];
+                if (!is_core_sample[neigh])
+                    continue;
+                da_int root = find_root(neigh);
+                if (labels[i] == NOISE || root < labels[i])
+                    labels[i] = root;
             }
-
-            labels[i] = current_label;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
+                if (is_core_sample[i] && labels[i] == i) {
+                    remap[i] = next_id;
                     next_id++;
                 }
             }
             n_clusters = next_id;
         }
 
-#pragma omp barrier
 #pragma omp for schedule(static)
         for (da_int i = 0; i < n_samples; ++i) {
             da_int lab = labels[i];
@@ -393,7 +401,7 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
         }
     } // End of parallel region
 
-    return status;
+    return da_status_success;
 }
 
 /* Compute the DBSCAN clusters using serial method */
diff --git a/source/core/clustering/dbscan/dbscan.hpp b/source/core/clustering/dbscan/dbscan.hpp
index eab0b33..71b7677 100644
--- a/source/core/clustering/dbscan/dbscan.hpp
+++ b/source/core/clustering/dbscan/dbscan.hpp
@@ -77,7 +77,6 @@ template <typename T> class dbscan : public basic_handle<T> {
     std::vector<da_vector::da_vector<da_int>>
         neighbors; // Use da_vector since we will be dynamically expanding this array
     std::vector<bool> is_core_sample;
-    std::vector<da_int> duplicate_labels;
 
     // Miscellaneous variables
     da_int min_samples_m1 = 0;
-- 
2.43.0


From f21ba06a5e14830c3becbc9d06cbf4b038714487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:53 +0000
Subject: [PATCH 076/106] fix: MacQueen's initial assignment compared the wrong
 distance to the first centre

---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 60b66d4..9d4a598 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -134,8 +134,8 @@ void kmeans<T>::init_macqueen_block(da_int block_size, da_int block_index) {
                         n_clusters, &A[A_index], lda, (T)0.0, workcs1.data(), ldworkcs1);
 
     for (da_int i = block_index; i < block_index + block_size; i++) {
-        T smallest_dist = workcs1[i - block_index] + workc1[0];
         da_int index = (i - block_index) * ldworkcs1;
+        T smallest_dist = workcs1[index] + workc1[0];
         da_int label = 0;
         for (da_int j = 1; j < n_clusters; j++) {
             tmp_dist = workcs1[index + j] + workc1[j];
-- 
2.43.0


From 23b10b1d3025a860679d24972e58a147489556d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:53 +0000
Subject: [PATCH 077/106] fix: MacQueen's method kept the squared norms of the
 initial centres after updating them

---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 9d4a598..aa30efd 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -106,6 +106,10 @@ template <typename T> void kmeans<T>::init_macqueen() {
                     (*current_cluster_centres)[i + j * n_clusters] /= cluster_count[i];
             }
         }
+        // The iterations rely on the squared norms of the updated centres
+        da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
+                                            (*current_cluster_centres).data(), n_clusters,
+                                            workc1.data());
     }
 
     // Re-zero previous clusters, which were used temporarily here
-- 
2.43.0


From 4446921b10798154fa3102eca60f408a7d763bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:04 +0000
Subject: [PATCH 078/106] fix: mixed precision k-means read its lower precision
 data in the wrong storage order

---
 source/core/clustering/kmeans/kmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 4cb8a66..d278cf0 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1849,11 +1849,12 @@ template <typename T> da_status kmeans<T>::lower_precision_init() {
                                                (*current_cluster_centres).data(),
                                                n_clusters, C_lp.data(), n_clusters);
 
-        // Create a lower-precision kmeans object and populate it with relevant data from this object
+        // Create a lower-precision kmeans object and populate it with relevant data from this object.
+        // The lower precision copy of A is stored in A_order, so that is its user's storage order
         da_int lda_lp =
             (this->A_order == column_major) ? this->n_samples : this->n_features;
         kmeans<lp_type> km_float(
-            *this->err, this->A_order, this->order, this->algorithm, supplied, this->seed,
+            *this->err, this->A_order, this->A_order, this->algorithm, supplied, this->seed,
             (lp_type)this->lp_tol, this->lp_max_iter, this->n_samples, this->n_features,
             this->n_clusters, 1, A_lp.data(), lda_lp, A_lp.data(), lda_lp, C_lp.data(),
             this->n_clusters, true, true, false, this->empty_cluster_handling,
-- 
2.43.0


From efb00e41f18e8db95210cd7dd2b83ec8d2736072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:04 +0000
Subject: [PATCH 079/106] fix: k-means with random partitions divided by zero
 for a cluster given no samples

---
 source/core/clustering/kmeans/kmeans.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index d278cf0..44a9ccf 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1458,7 +1458,9 @@ template <typename T> void kmeans<T>::initialize_centres() {
 #pragma omp simd collapse(2)
         for (da_int j = 0; j < n_features; j++) {
             for (da_int i = 0; i < n_clusters; i++) {
-                (*current_cluster_centres)[i + j * n_clusters] /= work_int1[i];
+                // A cluster could have been given no samples
+                (*current_cluster_centres)[i + j * n_clusters] /=
+                    std::max(work_int1[i], da_int(1));
             }
         }
 
-- 
2.43.0


From 9b5ca8d7402543274ec162c9f3153a0710b92b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:56 +0000
Subject: [PATCH 080/106] fix: splitting a cluster of spherical k-means treated
 its unit-norm centre as the mean of its points

---
 source/core/clustering/kmeans/kmeans.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 44a9ccf..0ea8759 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1228,12 +1228,22 @@ template <typename T> da_status kmeans<T>::handle_empty_clusters(bool &clusters_
             (do_spherical && normalize_data) ? data_inv_norms[best_idx] : (T)1.0;
 
         // Update old cluster centre: remove point contribution
-        // new_centre = (centre * n_old - point) / (n_old - 1)
         for (da_int j = 0; j < n_features; j++) {
-            T a_val = A[best_idx * A_rstride + j * A_cstride] * inv_norm_best;
             T &centre_val =
                 (*current_cluster_centres)[old_label * C_rstride + j * C_cstride];
-            centre_val = (centre_val * n_old - a_val) / (n_old - 1);
+            if (do_spherical) {
+                // The length of the mean is lost in the unit-norm centre so sum the remaining points
+                centre_val = (T)0.0;
+                for (da_int i = 0; i < n_samples; i++) {
+                    if (i != best_idx && (*current_labels)[i] == old_label)
+                        centre_val += A[i * A_rstride + j * A_cstride] *
+                                      (normalize_data ? data_inv_norms[i] : (T)1.0);
+                }
+            } else {
+                // new_centre = (centre * n_old - point) / (n_old - 1)
+                T a_val = A[best_idx * A_rstride + j * A_cstride];
+                centre_val = (centre_val * n_old - a_val) / (n_old - 1);
+            }
         }
 
         // Set new cluster centre = the relocated point
-- 
2.43.0


From 8e1e544496c0c65428658f517fe337b2b9f58786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 081/106] fix: Hartigan-Wong reported one iteration more than
 the maximum when it was reached

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index 650d4b9..61f49cb 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -308,7 +308,7 @@ void kmns(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int i
   If the maximum number of iterations was taken without convergence,
   IFAULT is 2 now.  This may indicate unforeseen looping.
 */
-    *n_iter = ij;
+    *n_iter = std::min(ij, iter);
     /*
     if (*ifault == 2) {
         printf("\n");
-- 
2.43.0


From 444ad6a20992d32176ae25e4e010427ff974aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:41 +0000
Subject: [PATCH 082/106] fix: setting an option freed the row-major data a
 DBSCAN handle was about to use

---
 source/core/clustering/dbscan/dbscan.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index a4766d9..f57acbb 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -164,10 +164,6 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
 };
 
 template <typename T> void dbscan<T>::refresh() {
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-    }
     this->model_trained = false;
     neighbors.clear();
     labels.clear();
@@ -183,6 +179,11 @@ da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     refresh();
+    initdone = false;
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+    }
 
     da_status status =
         this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
-- 
2.43.0


From 258780b97105fddbe8a2d7e1693b825ff5dbf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:11 +0000
Subject: [PATCH 083/106] fix: k-means on a used handle returned the previous
 centres if the inertia was not finite

---
 source/core/clustering/kmeans/kmeans.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 0ea8759..55bd617 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -737,12 +737,12 @@ template <typename T> da_status kmeans<T>::compute() {
             continue;
         }
 
-        valid_run_found = true;
-
         // Check if it's the best run yet
-        // Also swap if best_cluster_centres is empty (first valid run), to handle
-        // the case where NaN inertia (e.g. _Float16 overflow) prevents the < comparison
-        if (current_inertia < best_inertia || best_cluster_centres->empty()) {
+        // Also swap if this is the first valid run, to handle the case where
+        // NaN inertia (e.g. _Float16 overflow) prevents the < comparison
+        bool first_valid_run = !valid_run_found;
+        valid_run_found = true;
+        if (current_inertia < best_inertia || first_valid_run) {
             best_inertia = current_inertia;
             best_n_iter = current_n_iter;
             best_lp_n_iter = lp_n_iter;
-- 
2.43.0


From a47d6b107a43bda78719819fb9fdf1539841ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 084/106] fix: setting an option zeroed the inertia and
 iteration count of a computed k-means model

---
 source/core/clustering/kmeans/kmeans.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 55bd617..a2c8e75 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -228,7 +228,6 @@ da_status kmeans<T>::get_result(da_result query, da_int *dim, da_int *result) {
 template <typename T> void kmeans<T>::refresh() {
 
     // Reset internal class variables to their defaults
-    best_n_iter = 0;
     current_n_iter = 0;
     warn_maxit_reached = false;
     converged = 0;
@@ -238,11 +237,9 @@ template <typename T> void kmeans<T>::refresh() {
     n_blocks = 0;
     block_rem = 0;
     ldworkcs1 = 0;
-    best_inertia = (T)0.0;
     current_inertia = (T)0.0;
     padding = 0;
     lp_n_iter = 0;
-    best_lp_n_iter = 0;
     empty_cluster_found = false;
 }
 
-- 
2.43.0


From 21ed6683bda94d9f9b47b40739aec6452f9c3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 085/106] fix: k-means read starting centres of another shape
 and new centres changed a computed model

---
 source/core/clustering/kmeans/kmeans.cpp | 33 +++++++++++++++++++-----
 source/core/clustering/kmeans/kmeans.hpp |  3 +++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index a2c8e75..e18012e 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -314,10 +314,13 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
                         "The storage order option was changed after data was set.");
     }
 
-    // Check for illegal arguments
-    this->opts.get("n_clusters", n_clusters);
+    // Check for illegal arguments. The number of clusters of any previously computed model is
+    // left alone until the next computation
+    da_int n_centres;
+    this->opts.get("n_clusters", n_centres);
+    centres_supplied = false;
     da_status status =
-        this->check_2D_array(this->order, n_clusters, n_features, C_in, ldc_in,
+        this->check_2D_array(this->order, n_centres, n_features, C_in, ldc_in,
                              "n_clusters", "n_features", "C", "ldc", 1, 1);
     if (status != da_status_success)
         return status;
@@ -326,11 +329,11 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
     if (this->order == row_major) {
         // Transpose C to column-major
         try {
-            C_temp = new T[(size_t)n_clusters * (size_t)n_features];
+            C_temp = new T[(size_t)n_centres * (size_t)n_features];
             ARCH::da_utils::copy_transpose_2D_array_row_to_column_major<T>(
-                n_clusters, n_features, C_in, ldc_in, C_temp, n_clusters);
+                n_centres, n_features, C_in, ldc_in, C_temp, n_centres);
             C = C_temp;
-            ldc = n_clusters;
+            ldc = n_centres;
         } catch (std::bad_alloc const &) {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
@@ -340,8 +343,10 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
         ldc = ldc_in;
     }
 
-    // Record that centres have been set
+    // Record that centres have been set and their shape
     centres_supplied = true;
+    n_centres_supplied = n_centres;
+    n_features_supplied = n_features;
 
     return da_status_success;
 }
@@ -366,6 +371,9 @@ template <typename T> da_status kmeans<T>::compute() {
                             "The storage order option was changed after data was set.");
         }
 
+        // Any previously computed model no longer matches the options read from here on
+        this->model_trained = false;
+
         // Read in other options and store in class
         this->opts.get("n_clusters", n_clusters);
 
@@ -453,6 +461,17 @@ template <typename T> da_status kmeans<T>::compute() {
                         "centres have been provided.");
     }
 
+    // This can only be triggered if the data or n_clusters changed after the centres were set
+    if (check_options && init_method == supplied &&
+        (n_centres_supplied != n_clusters || n_features_supplied != n_features)) {
+        return da_error(this->err, da_status_incompatible_options,
+                        "The initial centres were provided for " +
+                            std::to_string(n_centres_supplied) + " clusters and " +
+                            std::to_string(n_features_supplied) +
+                            " features, but n_clusters = " + std::to_string(n_clusters) +
+                            " and n_features = " + std::to_string(n_features) + ".");
+    }
+
     if (A_temp) {
         delete[] (A_temp);
         A_temp = nullptr;
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index ae36a01..b3be677 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -65,6 +65,9 @@ template <typename T> class kmeans : public basic_handle<T> {
     // Set true if set_init_centres is called
     bool centres_supplied = false;
 
+    // Shape of the supplied centres
+    da_int n_centres_supplied = 0, n_features_supplied = 0;
+
     // Underlying algorithm
     da_int algorithm = lloyd;
 
-- 
2.43.0


From 8351a0c5a98cc21f9905c8fedc168435246c32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 086/106] fix: rows loaded over several blocks of columns were
 lost behind later, narrower rows, and unfinished rows could have different
 lengths

---
 source/core/data_management/data_store.hpp | 206 +++++++++------------
 1 file changed, 91 insertions(+), 115 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..8f6035a 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -37,6 +37,7 @@
 #include "read_csv.hpp"
 #include <ciso646> // Fixes an MSVC issue
 #include <iostream>
+#include <algorithm>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -361,20 +362,14 @@ class block_id {
   public:
     /* b: pointer to a generic block class
      * offset: column index of the first element in the block
-     * next: pointer to another block_id containing the next rows
-     * left_parent: pointer to the left most parent of the block_id; nullptr if it contains the first rows
+     * next: pointer to another block_id containing the next rows of the same columns
+     *
+     * Each interval of columns in the store has its own chain of block_ids. Blocks of rows
+     * spanning several intervals are shared between their chains.
      */
-    block *b = nullptr;
+    std::shared_ptr<block> b = nullptr;
     da_int offset = 0;
     std::shared_ptr<block_id> next = nullptr;
-    std::shared_ptr<block_id> left_parent = nullptr;
-
-    ~block_id() {
-        if (b) {
-            delete b;
-            b = nullptr;
-        }
-    };
 };
 
 using namespace da_interval;
@@ -408,9 +403,11 @@ class data_store {
     /* Data to handle partially added rows
      * missing_block: if true, blocks the other functionality until the partial row block is finished
      * idx_start_missing: column index of the start of the missing block
+     * n_rows_missing: number of rows being added
      */
     bool missing_block = false;
     da_int idx_start_missing = 0;
+    da_int n_rows_missing = 0;
 
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
@@ -487,12 +484,12 @@ class data_store {
         std::shared_ptr<block_id> new_block;
         try {
             new_block = std::make_shared<block_id>(block_id());
-            new_block->b =
-                new block_dense<T>(mc, nc, data, *this->err, order, copy_data, C_data);
-            new_block->offset = n;
-            block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-            bd->set_own_data(own_data || copy_data);
             index_to_name.resize(n + nc, nullptr);
+            auto bd = std::make_shared<block_dense<T>>(mc, nc, data, *this->err, order,
+                                                       copy_data, C_data);
+            bd->set_own_data(own_data || copy_data);
+            new_block->b = bd;
+            new_block->offset = n;
         } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
             return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
@@ -513,97 +510,82 @@ class data_store {
     da_status concatenate_rows(da_int mr, da_int nr, T *data, da_order order,
                                bool copy_data = false, bool own_data = false,
                                bool C_data = false) {
-        da_status status = da_status_success;
-        bool found;
-        da_int lb, ub, idx_start;
-        std::shared_ptr<block_id> new_block = nullptr;
-
         if (n <= 0) {
             // First block, columns need to be concatenated instead.
-            status = this->concatenate_columns(mr, nr, data, order, copy_data, own_data,
-                                               C_data);
-        } else {
-            bool cleanup = false;
-            idx_start = 0;
-            if (missing_block)
-                idx_start = idx_start_missing;
-            if (mr <= 0)
-                return da_error(err, da_status_invalid_input,
-                                "Number of rows must be positive");
-            if (nr <= 0)
-                return da_error(err, da_status_invalid_input,
-                                "Number of columns must be positive");
-            if (n > 0 && nr + idx_start > n)
-                return da_error(err, da_status_invalid_input,
-                                "Number of rows must match " + std::to_string(m) +
-                                    " (input: " + std::to_string(nr + idx_start) + ")");
-
-            // Create a dense block from the raw data
-            try {
-                new_block = std::make_shared<block_id>(block_id());
-                new_block->b =
-                    new block_dense<T>(mr, nr, data, *err, order, copy_data, C_data);
-                block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-                bd->set_own_data(own_data || copy_data);
-            } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
-                return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
-                                "Memory allocation error");
-            }
+            return this->concatenate_columns(mr, nr, data, order, copy_data, own_data,
+                                             C_data);
+        }
 
-            new_block->offset = idx_start;
-            block_type btype = get_block_type<T>();
+        da_int idx_start = missing_block ? idx_start_missing : 0;
+        if (mr <= 0)
+            return da_error(err, da_status_invalid_input,
+                            "Number of rows must be positive");
+        if (nr <= 0)
+            return da_error(err, da_status_invalid_input,
+                            "Number of columns must be positive");
+        if (nr > n - idx_start)
+            return da_error(err, da_status_invalid_input,
+                            "Number of columns must not exceed " +
+                                std::to_string(n - idx_start) +
+                                " (input: " + std::to_string(nr) + ")");
+        if (missing_block && mr != n_rows_missing)
+            return da_error(err, da_status_invalid_input,
+                            "Number of rows must match the rows being added: " +
+                                std::to_string(n_rows_missing) +
+                                " (input: " + std::to_string(mr) + ")");
 
-            if (!missing_block)
-                m += mr;
-            ub = idx_start - 1;
-            std::shared_ptr<block_id> current_block;
+        // The new rows must cover complete intervals of columns of the same type
+        std::vector<std::shared_ptr<block_id>> current_blocks, new_blocks;
+        try {
+            da_int ub = idx_start - 1;
             while (ub < idx_start + nr - 1) {
-                found = cmap.find(ub + 1, current_block, lb, ub);
-                if (!found)
-                    break;
-                if (btype != current_block->b->btype || ub > idx_start + nr - 1) {
-                    cleanup = true;
-                    status =
-                        da_error(err, da_status_invalid_input,
-                                 "cannot concatenate row(s), column types do not match.");
-                    break;
-                }
-                while (current_block->next != nullptr)
-                    current_block = current_block->next;
-                current_block->next = new_block;
-                if (new_block->left_parent == nullptr)
-                    new_block->left_parent = current_block;
+                auto it = cmap.find(ub + 1);
+                if (it == cmap.end())
+                    return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                                    "Unexpected missing columns in the store");
+                ub = it->first.upper;
+                if (it->second->b->btype != get_block_type<T>() ||
+                    ub > idx_start + nr - 1)
+                    return da_error(
+                        err, da_status_invalid_input,
+                        "cannot concatenate row(s), column types do not match.");
+                current_blocks.push_back(it->second);
             }
-            if (!cleanup) {
-                if (idx_start + nr < n) {
-                    missing_block = true;
-                    idx_start_missing = idx_start + nr;
-                } else {
-                    missing_block = false;
-                    idx_start_missing = 0;
-                }
-            } else {
-                // Error occurred, clear the 'next' pointers from the existing blocks
-                ub = idx_start - 1;
-                std::shared_ptr<block_id> current_block;
-                while (ub < idx_start + nr - 1) {
-                    auto it = cmap.find(ub + 1);
-                    if (it == cmap.end())
-                        break;
-                    current_block = it->second;
-                    while (current_block->next != nullptr) {
-                        if (current_block->next == new_block)
-                            current_block->next = nullptr;
-                        else
-                            current_block = current_block->next;
-                    }
-                    ub = it->first.upper;
-                    ++it;
-                }
-                m -= mr;
+
+            // Create a dense block from the raw data, shared by all the intervals of columns
+            for (size_t k = 0; k < current_blocks.size(); k++)
+                new_blocks.push_back(std::make_shared<block_id>());
+            auto bd = std::make_shared<block_dense<T>>(mr, nr, data, *err, order,
+                                                       copy_data, C_data);
+            bd->set_own_data(own_data || copy_data);
+            for (auto &new_block : new_blocks) {
+                new_block->b = bd;
+                new_block->offset = idx_start;
             }
+        } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
+
+        for (size_t k = 0; k < current_blocks.size(); k++) {
+            std::shared_ptr<block_id> last = current_blocks[k];
+            while (last->next != nullptr)
+                last = last->next;
+            last->next = new_blocks[k];
         }
-        return status; // Error message already loaded
+
+        if (!missing_block)
+            m += mr;
+        if (idx_start + nr < n) {
+            missing_block = true;
+            idx_start_missing = idx_start + nr;
+            n_rows_missing = mr;
+        } else {
+            missing_block = false;
+            idx_start_missing = 0;
+            n_rows_missing = 0;
+        }
+        return da_status_success;
     }
 
     /* concat the current datastore with the store passed on the interface horizontally
@@ -622,19 +604,13 @@ class data_store {
 
         columns_map::iterator it1 = store.cmap.begin(), it2;
         da_int n_orig = n;
-        std::shared_ptr<block_id> store_block, next, current_block;
         while (it1 != store.cmap.end()) {
             da_int nc = it1->first.upper - it1->first.lower + 1;
-            store_block = it1->second;
-            store_block->offset += n_orig;
-            cmap.insert(interval(n, n + nc - 1), store_block);
-            current_block = store_block;
-            next = store_block->next;
-            while (next != nullptr) {
-                if (next->left_parent == current_block)
-                    next->offset = current_block->offset;
-                current_block = next;
-                next = next->next;
+            cmap.insert(interval(n, n + nc - 1), it1->second);
+            for (std::shared_ptr<block_id> bid = it1->second; bid != nullptr;
+                 bid = bid->next) {
+                bid->offset += n_orig;
+                bid->b->err = err;
             }
             n += nc;
             it2 = it1;
@@ -684,7 +660,7 @@ class data_store {
                 err, da_status_invalid_input,
                 "Incompatible types between the datastore and the input data");
         while (id != nullptr) {
-            bb = static_cast<block_base<T> *>(id->b);
+            bb = static_cast<block_base<T> *>(id->b.get());
             status = bb->get_col(idx - id->offset, &c, stride);
             if (status != da_status_success)
                 return da_error_trace( // LCOV_EXCL_LINE
@@ -752,7 +728,7 @@ class data_store {
                 block_rows = {lr - first_row_idx, ur - first_row_idx};
                 if (block_rows.upper >= block_rows.lower) {
                     block_cols = {lcol - bid->offset, uc - bid->offset};
-                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
                     status = bb->copy_slice_dense(block_cols, block_rows, idxr, ld_slice,
                                                   slice);
                     if (status != da_status_success)
@@ -1169,7 +1145,7 @@ class data_store {
         while (i < m) {
             if (!valid_rows[i]) {
                 da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
+                while (idx_stop < m && !valid_rows[idx_stop]) {
                     idx_stop++;
                 }
                 status = row_slice->erase({i, idx_stop - 1});
@@ -1286,7 +1262,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         elem = col[rowidx * stride];
 
@@ -1325,7 +1301,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         col[rowidx * stride] = elem;
 
-- 
2.43.0


From d4b1652a3a5b353f4036389063ec42f3872dae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 087/106] fix: joining two data stores dropped the column
 labels, broke later labelling and never ended for a store joined with itself

---
 source/core/data_management/data_store.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 8f6035a..fb9f5fc 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -592,6 +592,9 @@ class data_store {
      * in output, 'this' will contain the concatenation and store will be destroyed.
      */
     da_status horizontal_concat(data_store &store) {
+        if (this == &store)
+            return da_error(err, da_status_invalid_input,
+                            "A store cannot be concatenated with itself.");
         if (m != store.m)
             return da_error(err, da_status_invalid_input,
                             "The number of rows in both stores must match (" +
@@ -617,6 +620,16 @@ class data_store {
             it1++;
             store.cmap.erase(it2);
         }
+
+        // Move the column labels
+        index_to_name.resize(n, nullptr);
+        for (da_int j = 0; j < store.n; j++) {
+            if (store.index_to_name[j] != nullptr)
+                label_column(*store.index_to_name[j], n_orig + j);
+        }
+        store.index_to_name.clear();
+        store.name_to_index.clear();
+        store.selections.clear();
         store.m = 0;
         store.n = 0;
 
-- 
2.43.0


From a00f48d354885238aa3e2f5ffed3cfce8df7244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 088/106] fix: row-major extraction of a selection of several
 column ranges wrote outside the array, and leading dimensions were not
 checked

---
 source/core/data_management/data_store.hpp | 40 +++++++++++++++-------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index fb9f5fc..2f5bcde 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -947,6 +947,7 @@ class data_store {
         bool clear_selections = false, clear_cols = false, clear_rows = false;
         da_int idx = 0;
         da_int ncols = 0;
+        da_int n_cols = 0, n_rows = 0;
         std::string internal_key;
 
         if (selections.empty()) {
@@ -992,6 +993,31 @@ class data_store {
             clear_cols = true;
         }
 
+        // Check the types and the leading dimension before writing anything
+        for (auto it_row = it->second.row_slice->begin();
+             it_row != it->second.row_slice->end(); ++it_row)
+            n_rows += it_row->upper - it_row->lower + 1;
+        for (auto it_col = it->second.col_slice->begin();
+             it_col != it->second.col_slice->end(); ++it_col) {
+            n_cols += it_col->upper - it_col->lower + 1;
+            for (da_int j = it_col->lower; j <= it_col->upper;) {
+                auto it_block = cmap.find(j);
+                if (it_block->second->b->btype != get_block_type<T>()) {
+                    exit_status = da_status_invalid_input;
+                    da_error(err, exit_status, "Incompatible type in the slice");
+                    goto exit;
+                }
+                j = it_block->first.upper + 1;
+            }
+        }
+        if (ld < (order == column_major ? n_rows : n_cols)) {
+            exit_status = da_status_invalid_input;
+            da_error(err, exit_status,
+                     "The leading dimension must be at least " +
+                         std::to_string(order == column_major ? n_rows : n_cols));
+            goto exit;
+        }
+
         if (order == column_major) {
 
             for (auto it_col = it->second.col_slice->begin();
@@ -1013,17 +1039,7 @@ class data_store {
         } else {
 
             // For row-major ordering, we need to create a temporary array first
-            da_int n_cols = 0, n_rows = 0, ldd = 0;
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                n_cols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    n_rows += it_row->upper - it_row->lower + 1;
-                }
-            }
-            ldd = n_rows;
-            // ncols and nrows are now correctly set
+            da_int ldd = n_rows;
             std::vector<T> tmp_data;
 
             try {
@@ -1036,7 +1052,7 @@ class data_store {
 
             for (auto it_col = it->second.col_slice->begin();
                  it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
+                idx = ncols * ldd;
                 ncols += it_col->upper - it_col->lower + 1;
                 for (auto it_row = it->second.row_slice->begin();
                      it_row != it->second.row_slice->end(); ++it_row) {
-- 
2.43.0


From c9a518dcf24101e3e85a44e7a443d7d6e290d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 089/106] fix: removing missing rows read past the end of the
 row flags

---
 source/core/data_management/data_store.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 2f5bcde..a61042b 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1147,7 +1147,7 @@ class data_store {
             it_col_end = it_allcol->second.col_slice->end();
             clear_all_cols = true;
         } else {
-            if (col_slice->begin() == col_slice->end()) {
+            if (col_slice->empty() && !it->second.no_cols) {
                 select_columns(key, {0, n - 1});
                 clear_cols = true;
             }
-- 
2.43.0


From edd489fff56895aff56a3f383c4353f5e1a9f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 090/106] fix: a selection whose rows or columns were all
 removed was extracted in full

---
 source/core/data_management/data_store.hpp | 30 +++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index a61042b..41e136d 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -379,6 +379,8 @@ using idx_slice = interval_map<da_int>;
 struct coord_slice {
     std::unique_ptr<interval_set> col_slice;
     std::unique_ptr<interval_set> row_slice;
+    // An empty set stands for all the indices unless every selected index was removed
+    bool no_cols = false, no_rows = false;
     coord_slice() {
         col_slice = std::make_unique<interval_set>();
         row_slice = std::make_unique<interval_set>();
@@ -810,12 +812,14 @@ class data_store {
         if (exit_status != da_status_success)
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "Unexpected failure in row selection.");
+        it->second.no_rows = false;
         exit_status = it->second.col_slice->insert(cols);
         if (exit_status != da_status_success) {
             it->second.row_slice->erase(rows);             // LCOV_EXCL_LINE
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "Unexpected failure in col selection.");
         }
+        it->second.no_cols = false;
         return da_status_success;
     }
 
@@ -846,6 +850,7 @@ class data_store {
             }
         }
         exit_status = it->second.col_slice->insert(cols);
+        it->second.no_cols = false;
 
         return exit_status;
     }
@@ -877,6 +882,7 @@ class data_store {
         }
 
         exit_status = it->second.row_slice->insert(rows);
+        it->second.no_rows = false;
 
         return exit_status;
     }
@@ -903,7 +909,10 @@ class data_store {
             msg += " is not a valid selection.";
             return da_warn(err, da_status_invalid_input, msg);
         }
-        exit_status = it->second.col_slice->erase(cols);
+        if (!it->second.col_slice->empty()) {
+            exit_status = it->second.col_slice->erase(cols);
+            it->second.no_cols = it->second.col_slice->empty();
+        }
 
         return exit_status;
     }
@@ -929,7 +938,10 @@ class data_store {
             msg += " is not a valid selection.";
             return da_warn(err, da_status_invalid_input, msg);
         }
-        exit_status = it->second.row_slice->erase(rows);
+        if (!it->second.row_slice->empty()) {
+            exit_status = it->second.row_slice->erase(rows);
+            it->second.no_rows = it->second.row_slice->empty();
+        }
 
         return exit_status;
     }
@@ -969,6 +981,13 @@ class data_store {
             goto exit;
         }
 
+        if (it->second.no_rows || it->second.no_cols) {
+            exit_status = da_status_invalid_input;
+            da_error(err, exit_status,
+                     "All the rows or columns were removed from the selection");
+            goto exit;
+        }
+
         if (it->second.row_slice->empty()) {
             // No rows in the current selection, create a temporary one containing all
             status = select_rows(key, {0, m - 1});
@@ -1106,13 +1125,17 @@ class data_store {
         auto it = selections.find(key);
         bool clear_cols = false, clear_all_cols = false;
         if (it == selections.end()) {
-            select_slice(key, {0, m - 1}, {0, n - 1});
+            status = select_slice(key, {0, m - 1}, {0, n - 1});
+            if (status != da_status_success)
+                return status; // Error message already loaded
             it = selections.find(key);
             clear_cols = true;
         }
 
         std::unique_ptr<interval_set> &col_slice = it->second.col_slice;
         std::unique_ptr<interval_set> &row_slice = it->second.row_slice;
+        if (it->second.no_rows)
+            return da_status_success; // Nothing is left to remove
         if (row_slice->empty()) {
             select_rows(key, {0, m - 1});
         }
@@ -1190,6 +1213,7 @@ class data_store {
             }
             i++;
         }
+        it->second.no_rows = row_slice->empty();
 
     exit:
         if (clear_cols)
-- 
2.43.0


From fe937441b180f1b7794550b932c972a459fcff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 091/106] fix: reading an element of unfinished rows crashed

---
 source/core/data_management/data_store.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 41e136d..f00fad6 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1309,6 +1309,10 @@ class data_store {
         while (i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
+            if (bid == nullptr)
+                return da_error(err, da_status_missing_block,
+                                "Row blocks are not complete, the element is not "
+                                "defined at this point");
         }
 
         da_int rowidx = i - offset;
@@ -1348,6 +1352,10 @@ class data_store {
         while (i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
+            if (bid == nullptr)
+                return da_error(err, da_status_missing_block,
+                                "Row blocks are not complete, the element is not "
+                                "defined at this point");
         }
 
         da_int rowidx = i - offset;
-- 
2.43.0


From f22253ea1dd36c4557ccdc22f0e55a677086c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 092/106] fix: relabelling a column of a data store kept its
 previous label

---
 source/core/data_management/data_store.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index f00fad6..05e2b73 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1378,9 +1378,18 @@ class data_store {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "maps and store size are out of sync");
 
+        std::string const *old = index_to_name[idx];
         auto it = name_to_index.insert(std::make_pair(label, idx)).first;
         std::string const *pstr = &it->first;
         index_to_name[idx] = pstr;
+        if (old != nullptr && old != pstr) {
+            // The previous label now designates another column that shares it, or none
+            auto same = std::find(index_to_name.begin(), index_to_name.end(), old);
+            if (same != index_to_name.end())
+                name_to_index.find(*old)->second = (da_int)(same - index_to_name.begin());
+            else
+                name_to_index.erase(name_to_index.find(*old));
+        }
         return da_status_success;
     }
 
-- 
2.43.0


From 46a0c453d095a1c929d6c59202484431fdcc6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 093/106] fix: data store calls trusted negative sizes of
 labels and blocks of strings

---
 source/core/data_management/data_store_public.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 0baa7df..30a98c3 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -159,7 +159,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         return da_error(store->err, da_status_internal_error, // LCOV_EXCL_LINE
                         "store seems to be invalid?");        // LCOV_EXCL_LINE
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = (n_rows > 0 && n_cols > 0) ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -195,7 +195,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
     if (!block)
         return da_error(store->err, da_status_invalid_input, "block has to be defined");
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = (n_rows > 0 && n_cols > 0) ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -425,11 +425,11 @@ da_status da_data_get_col_label(da_datastore store, da_int col_idx, da_int *labe
     if (status != da_status_success) {
         return status; // Error message already loaded
     }
-    if (*label_sz < label_str.size() + 1) {
-        *label_sz = (da_int)label_str.size() + 1;
+    if (*label_sz < (da_int)label_str.size() + 1) {
         std::string buff = "label_sz was set to " + std::to_string(*label_sz) +
                            " but the output label is of size " +
                            std::to_string(label_str.size() + 1);
+        *label_sz = (da_int)label_str.size() + 1;
         return da_error(store->err, da_status_invalid_input, buff);
     }
     for (da_int i = 0; i < label_str.size(); i++)
-- 
2.43.0


From 535cc763e4b47c3176521764ab0a94ecadc7fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 094/106] fix: real options accepted NaN

---
 source/core/utilities/options.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index 2cb3f4e..f341f16 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -256,11 +256,12 @@ class OptionBase {
                     return da_status_option_invalid_bounds;
                 }
             }
-            if (has_nan) {
-                if (std::isnan(static_cast<double>(value))) {
-                    errmsg = "Option '" + name + "': Invalid value.";
-                    return da_status_option_invalid_value;
-                }
+        }
+
+        if (std::numeric_limits<T>::has_quiet_NaN) {
+            if (std::isnan(static_cast<double>(value))) {
+                errmsg = "Option '" + name + "': Invalid value.";
+                return da_status_option_invalid_value;
             }
         }
 
-- 
2.43.0


From 02b8599b27a5e2777cada537c0253d24beaf2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 095/106] fix: a rejected option cleared the results of the
 handle

---
 source/core/utilities/options_public.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..169e115 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -44,7 +44,7 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     }
 
     da_options::OptionRegistry *opts;
-    status = handle->get_current_opts(&opts, true);
+    status = handle->get_current_opts(&opts);
     if (status != da_status_success)
         return status; // Error message already loaded
 
@@ -53,7 +53,8 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
         // Construct error based on status & opts->errmsg string
         return da_error(handle->err, status, opts->errmsg);
     }
-    return da_status_success;
+    // Only options that were set need the handle to be refreshed
+    return handle->get_current_opts(&opts, true);
 }
 
 da_status da_options_get(da_handle handle, const char *option, char *value,
-- 
2.43.0


From b8a2b2292f1b91dc72b7f512367adb1927f1454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:36 +0000
Subject: [PATCH 096/106] fix: option calls dereferenced null pointers and took
 a negative buffer length as huge

---
 source/core/utilities/options_public.cpp | 30 ++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 169e115..0a7cafb 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -36,6 +36,13 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (!option)
+        return da_error(handle->err, da_status_invalid_pointer, "option has to be defined");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (!value)
+            return da_error(handle->err, da_status_invalid_pointer,
+                            "value has to be defined");
+    }
 
     if constexpr (!std::is_same_v<T, da_int> && !std::is_same_v<T, const char *>) {
         da_status status = handle->check_precision<T>();
@@ -64,6 +71,9 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (!option || !value || !lvalue)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "option, value and lvalue have to be defined");
 
     da_options::OptionRegistry *opts;
     status = handle->get_current_opts(&opts);
@@ -79,7 +89,7 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if ((da_int)n >= *lvalue) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
@@ -103,6 +113,9 @@ da_status da_options_get(da_handle handle, const char *option, T *value) {
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (!option || !value)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "option and value have to be defined");
 
     if constexpr (!std::is_same_v<T, da_int>) {
         da_status status = handle->check_precision<T>();
@@ -144,6 +157,13 @@ da_status da_datastore_options_set(da_datastore store, const char *option, T val
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (!option)
+        return da_error(store->err, da_status_invalid_pointer, "option has to be defined");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (!value)
+            return da_error(store->err, da_status_invalid_pointer,
+                            "value has to be defined");
+    }
 
     status = store->opts->set(option, value, da_options::user);
     if (status != da_status_success) {
@@ -160,13 +180,16 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (!option || !value || !lvalue)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "option, value and lvalue have to be defined");
 
     std::string svalue;
     status = store->opts->get(option, svalue);
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if ((da_int)n >= *lvalue) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
@@ -190,6 +213,9 @@ da_status da_datastore_options_get(da_datastore store, const char *option, T *va
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (!option || !value)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "option and value have to be defined");
 
     status = store->opts->get(option, *value);
     if (status != da_status_success) {
-- 
2.43.0


From 530cb4929fafc78cc75bfa44a09cc87bede4a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 097/106] fix: PCA and DBSCAN scalar results were written
 without looking at the size of the array

---
 source/core/clustering/dbscan/dbscan.cpp | 12 ++++++++++++
 source/core/factorization/pca/pca.cpp    |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index f57acbb..6c1a9e3 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -150,9 +150,21 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
         break;
     }
     case da_result::da_dbscan_n_clusters:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_clusters;
         break;
     case da_result::da_dbscan_n_core_samples:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_core_samples;
         break;
     default:
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..bd5f008 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -236,6 +236,12 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
             result[i] = column_sdevs[i];
         break;
     case da_result::da_pca_total_variance:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         result[0] = total_variance;
         break;
     default:
-- 
2.43.0


From d731a03d363c1cad3f5b1da52f10d16c605faaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 098/106] fix: linear model coefficients were refused when the
 array was larger than needed

---
 source/core/linear_model/linear_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index a3f5aa6..563ebc0 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -559,7 +559,7 @@ da_status linear_model<T>::get_coef(da_int &nx, T *coef, da_coef_type ctype) {
                             "The dual coefficients are only available for "
                             "underdetermined data and CG solver.");
     da_int correct_dim = (ctype == primal) ? ncoef : nsamples;
-    if (nx != correct_dim) {
+    if (nx < correct_dim) {
         nx = correct_dim;
         return da_warn(this->err, da_status_invalid_array_dimension,
                        "The number of coefficients is wrong, correct size is " +
-- 
2.43.0


From f270a59f465994de8fa88282001140ac8b04a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 099/106] fix: a too small information array of an optimization
 solver was reported with the wrong status

---
 source/core/optimization/optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/optimization/optimization.cpp b/source/core/optimization/optimization.cpp
index 976461a..0f2f7a7 100644
--- a/source/core/optimization/optimization.cpp
+++ b/source/core/optimization/optimization.cpp
@@ -91,7 +91,7 @@ template <typename T> da_status da_optimization<T>::get_info(da_int &dim, T info
     if (dim < mlen) {
         dim = mlen;
         return da_warn(
-            this->err, da_status_operation_failed,
+            this->err, da_status_invalid_array_dimension,
             "Failed to copy info array, make sure info is of length at least " +
                 std::to_string(mlen));
     }
-- 
2.43.0


From 7094e8d4153c944374a6c78bd86275fc011652f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 100/106] fix: da_trained could not be queried for t-SNE and
 unselected interpolation models

---
 source/core/dimension_reduction/tsne/tsne.cpp | 16 +++++++++-------
 source/core/dimension_reduction/tsne/tsne.hpp |  1 -
 source/core/interpolation/interpolation.cpp   |  3 +++
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index 8318137..b98e27e 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -154,7 +154,7 @@ tsne<T>::tsne(da_errors::da_error_t &err, da_int n_samples, da_int n_features,
       seed(seed){};
 
 template <typename T> void tsne<T>::refresh() {
-    model_trained = false;
+    this->model_trained = false;
     kl_divergence = 0;
     lp_n_iter = 0;
     start_iter = 0;
@@ -229,7 +229,7 @@ da_status tsne<T>::set_data(da_int n_samples_in, da_int n_features_in, const T *
     }
 
     initdone = true;
-    model_trained = false;
+    this->model_trained = false;
 
     // Save user-set values before re-registering options (which resets to defaults)
     da_int temp_components = 2;
@@ -1205,14 +1205,14 @@ template <typename T> da_status tsne<T>::compute() {
         return status;                  // LCOV_EXCL_LINE
     }
 
-    model_trained = true;
+    this->model_trained = true;
     omp_set_num_threads(n_threads);
     return da_status_success;
 }
 
 template <typename T>
 da_status tsne<T>::get_result(da_result query, da_int *dim, T *result) {
-    if (!model_trained)
+    if (!this->model_trained)
         return da_warn(this->err, da_status_no_data,
                        "t-SNE has not yet been computed. Please call da_tsne_compute_s "
                        "or da_tsne_compute_d before extracting results.");
@@ -1254,9 +1254,11 @@ da_status tsne<T>::get_result(da_result query, da_int *dim, T *result) {
 
 template <typename T>
 da_status tsne<T>::get_result(da_result query, da_int *dim, da_int *result) {
-    (void)query;
-    (void)dim;
-    (void)result;
+    // check to see if user needs common stuff from the basic handle first
+    da_status status = this->get_result_common(query, dim, result);
+    if (status != da_status_unknown_query) {
+        return status; // either got requested info or error
+    }
     return da_error(this->err, da_status_unknown_query,
                     "There are no integer results available for this API.");
 }
diff --git a/source/core/dimension_reduction/tsne/tsne.hpp b/source/core/dimension_reduction/tsne/tsne.hpp
index acfdb10..a98d96b 100644
--- a/source/core/dimension_reduction/tsne/tsne.hpp
+++ b/source/core/dimension_reduction/tsne/tsne.hpp
@@ -118,7 +118,6 @@ template <typename T> class tsne : public basic_handle<T> {
     da_int n_iter_performed = 0;
 
     bool initdone = false;
-    bool model_trained = false;
 
     // If we are constructing via the bypass constructor, skip option reading in compute()
     bool check_options = true;
diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 8785898..67b12ad 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -186,6 +186,9 @@ da_status interpolation_p<T>::get_result(da_result query, da_int *dim, da_int *r
 
     if (model != da_interpolation_model::interpolation_unset)
         status = interp->get_result(query, dim, result);
+    else if (query == da_result::da_trained)
+        // Nothing has been trained yet
+        status = this->get_result_common(query, dim, result);
     else
         return da_error(this->err, da_status_invalid_input,
                         "Interpolation model not selected. No results available.");
-- 
2.43.0


From 914375bd6a80e33b3b177398194d43ead8a4faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 101/106] fix: NaN is a legal value of a real option without
 constraints

---
 source/core/utilities/options.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index f341f16..45fd72a 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -258,7 +258,9 @@ class OptionBase {
             }
         }
 
-        if (std::numeric_limits<T>::has_quiet_NaN) {
+        // An unbounded option can be set to NaN (e.g. to label outliers)
+        if (std::numeric_limits<T>::has_quiet_NaN &&
+            (checkall || lbound != m_inf || ubound != p_inf)) {
             if (std::isnan(static_cast<double>(value))) {
                 errmsg = "Option '" + name + "': Invalid value.";
                 return da_status_option_invalid_value;
-- 
2.43.0


From bb0d15d7ad25ed0b286e32373e6a007a291fec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:06 +0000
Subject: [PATCH 102/106] fix: options changed after the training data were
 silently ignored by nearest neighbours

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index bb774ae..9e31803 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -403,6 +403,10 @@ template <typename T> da_status neighbors<T>::check_options_update() {
     bool opt_pass = true;
     da_int local_algo, local_metric, local_leaf_size;
     T local_p;
+    opt_pass &= this->opts.get("number of neighbors", n_neighbors) == da_status_success;
+    opt_pass &= this->opts.get("weights", opt_val, weights) == da_status_success;
+    opt_pass &= this->opts.get("metric", opt_val, local_metric) == da_status_success;
+    opt_pass &= this->opts.get("minkowski parameter", local_p) == da_status_success;
     opt_pass &= this->opts.get("algorithm", opt_val, local_algo) == da_status_success;
     opt_pass &= this->opts.get("radius", radius) == da_status_success;
     opt_pass &= this->opts.get("outlier handling", opt_val, outlier_handling) ==
@@ -426,6 +430,13 @@ template <typename T> da_status neighbors<T>::check_options_update() {
     if (!opt_pass)
         return da_error_bypass(this->err, da_status_internal_error, // LCOV_EXCL_LINE
                                "Unexpected error while reading the optional parameters.");
+    // The metric is read when the training data is set
+    if (this->metric != local_metric ||
+        (local_metric == da_minkowski && this->p != local_p)) {
+        return da_error_bypass(
+            this->err, da_status_option_locked,
+            "Options need to be set before calling set_training_data().");
+    }
     // If the algorithm is auto or k-d tree, we would need to recompute the tree
     if (local_algo == da_neighbors_types::nn_algorithm::automatic ||
         local_algo == da_neighbors_types::nn_algorithm::kd_tree ||
@@ -447,21 +458,6 @@ template <typename T> da_status neighbors<T>::check_options_update() {
                 this->err, da_status_option_locked,
                 "Options need to be set before calling set_training_data().");
         }
-        if (local_algo == da_neighbors_types::nn_algorithm::automatic) {
-            opt_pass &=
-                this->opts.get("metric", opt_val, local_metric) == da_status_success;
-            opt_pass &=
-                this->opts.get("minkowski parameter", local_p) == da_status_success;
-            if (!opt_pass)
-                return da_error_bypass(
-                    this->err, da_status_internal_error, // LCOV_EXCL_LINE
-                    "Unexpected error while reading the optional parameters.");
-            if (this->metric != local_metric || this->p != local_p) {
-                return da_error_bypass(
-                    this->err, da_status_option_locked,
-                    "Options need to be set before calling set_training_data().");
-            }
-        }
     }
     return da_status_success;
 }
-- 
2.43.0


From c38fef606240f210cde70d7605c4b1feeaf1dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:06 +0000
Subject: [PATCH 103/106] fix: new training data left the old decision forest
 in use

---
 .../decision_forest/forest/decision_forest_handle_utilities.hpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 0bf927b..eeecea5 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -125,6 +125,7 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
         return status;
 
     this->refresh();
+    this->model_trained = false;
     this->y = y;
     this->n_samples = n_samples;
     this->n_features = n_features;
-- 
2.43.0


From 5b2984d403ebddd26179223d29b30ef65c4a4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 104/106] fix: training an approximate neighbours index again
 kept counting the samples of the old index

---
 source/core/approximate_neighbors/approximate_neighbors.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index 07ae95e..59dd4ef 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -344,6 +344,10 @@ template <typename T> da_status approximate_neighbors<T>::train_ivfflat() {
     // We can now allocate memory for centroids, list_sizes and global_indices
     // as we have read n_list in read_training_options
     // Note use of assign and not resize as n_list may change between train calls
+    // Training empties the index, including any data added after a previous training
+    this->model_trained = false;
+    this->data_is_added = false;
+    this->n_index = 0;
     try {
         this->list_sizes.assign(n_list, 0);
         this->old_list_sizes.assign(n_list, 0);
-- 
2.43.0


From 78d2b11dc3f4810acc78de15d55002cb5fe1e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:22 +0000
Subject: [PATCH 105/106] fix: kernel PCA computed again without the inverse
 transform kept the old inverse transform

---
 source/core/factorization/kernel_pca/kernel_pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 6794ac4..5f09001 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -327,6 +327,10 @@ template <typename T> da_status kernel_pca<T>::compute() {
                         "No data has been provided. Please call da_kernel_pca_set_data_? "
                         "before da_kernel_pca_compute_?.");
 
+    // Nothing computed by an earlier call remains valid
+    this->model_trained = false;
+    inverse_fitted = false;
+
     da_int n_components_opt, kernel_int, fit_inv_int, remove_zero_int, solver_int;
     std::string kernel_str, fit_inv_str, remove_zero_str, solver_str;
 
-- 
2.43.0


From 08f174c60b26d5a9437290098463a770d52ab670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:38 +0000
Subject: [PATCH 106/106] fix: training an SVM again started from the values
 left by the previous training

---
 source/core/svm/base_svm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 8e37477..bce3c0a 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -225,7 +225,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     case svm_kernel::rbf:
         kernel_f = &rbf_wrapper<T>;
         try {
-            x_norm_aux.resize(n + padding);
+            x_norm_aux.assign(n + padding, T(0));
             y_norm_aux.resize(ws_size + padding);
         } catch (std::bad_alloc &) {
             return da_error(err, da_status_memory_error, "Memory allocation error");
@@ -271,7 +271,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         // (can be modified if it's unusual design)
         da_std::fill(gradient.begin(), gradient.end(), T(0));
         response.resize(actual_size);
-        alpha.resize(actual_size);
+        alpha.assign(actual_size, T(0));
         local_alpha.resize(ws_size);
         local_gradient.resize(ws_size + padding);
         local_response.resize(ws_size);
@@ -285,7 +285,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         // Update gradient
         alpha_diff.resize(ws_size);
         // Result handling
-        n_support_per_class.resize(2, 0);
+        n_support_per_class.assign(2, 0);
     } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
         return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
-- 
2.43.0

