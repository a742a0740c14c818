// Every savable model kind: how to configure and train it, and how to observe everything it answers.
#pragma once
#include "da.hpp"
#include "da_handle.hpp"
#include "basic_handle.hpp"
#include <functional>
namespace models {
using namespace dah;
using Pts = std::vector<std::vector<double>>;
// an append-only record of observations, compared byte for byte
struct Obs {
    struct E { std::string what; std::string bytes; };
    std::vector<E> e;
    template <class V> void add(const std::string &w, da_status s, const V &v) {
        std::string b((const char *)&s, sizeof s);
        for (auto x : v) b.append((const char *)&x, sizeof x);
        e.push_back({w, b});
    }
};
inline std::string show_diff(const Obs &a, const Obs &b) {
    if (a.e.size() != b.e.size()) return "number of observations differs";
    for (size_t i = 0; i < a.e.size(); i++) if (a.e[i].bytes != b.e[i].bytes) {
        std::string r = a.e[i].what + ": ";
        auto st = [](const std::string &s) { da_status x; memcpy(&x, s.data(), sizeof x); return (int)x; };
        r += "status " + std::to_string(st(a.e[i].bytes)) + " -> " + std::to_string(st(b.e[i].bytes));
        r += ", " + std::to_string(a.e[i].bytes.size()) + " -> " + std::to_string(b.e[i].bytes.size()) + " bytes";
        size_t n = std::min(a.e[i].bytes.size(), b.e[i].bytes.size());
        for (size_t k = 4; k < n; k++) if (a.e[i].bytes[k] != b.e[i].bytes[k]) { r += ", first difference at byte " + std::to_string(k - 4); double x, y; size_t w = (k - 4) / 8 * 8 + 4; if (w + 8 <= n) { memcpy(&x, &a.e[i].bytes[w], 8); memcpy(&y, &b.e[i].bytes[w], 8); char t[80]; snprintf(t, sizeof t, " (%.17g -> %.17g as double)", x, y); r += t; } break; }
        return r;
    }
    return "";
}
static const da_result all_results[] = {
    da_rinfo, da_trained, da_linmod_coef, da_linmod_dual_coef, da_pca_scores, da_pca_variance, da_pca_principal_components,
    da_pca_total_variance, da_pca_column_means, da_pca_column_sdevs, da_pca_u, da_pca_sigma, da_pca_vt,
    da_kernel_pca_n_components, da_kernel_pca_eigenvalues, da_kernel_pca_eigenvectors, da_kernel_pca_scores, da_kernel_pca_dual_coef,
    da_kernel_pca_gamma, da_kmeans_cluster_centres, da_kmeans_labels, da_nn_radius_neighbors_count, da_nn_radius_neighbors_offsets,
    da_nn_radius_neighbors_indices, da_nn_radius_neighbors_distances,
    da_svm_n_support_vectors, da_svm_n_support_vectors_per_class, da_svm_idx_support_vectors, da_svm_n_iterations, da_svm_support_vectors,
    da_svm_bias, da_svm_dual_coef, da_svm_lp_n_iterations, da_approx_nn_cluster_centroids, da_approx_nn_list_sizes};
// Linear models do not keep the statistics of the optimization run (the code says so), the others do.
// info: 0 everything, 1 what a linear model keeps in its file, 2 all but the wall clock
template <class T> void query_all(da_handle h, Obs &o, int info = 0) {
    for (da_result q : all_results) {
        std::vector<T> r; std::vector<da_int> k;
        da_status s = query(h, q, r);
        if (s != da_status_success) r.clear();
        if (q == da_rinfo && info && r.size() > 20) { r[linmod_info_time] = 0; if (info == 1) for (size_t i = 0; i < r.size(); i++) if (i < linmod_info_nsamples || i >= linmod_info_lp_n_iter) r[i] = 0; }
        o.add("result " + std::to_string((int)q), s, r);
        s = query(h, q, k);
        if (s != da_status_success) k.clear();
        o.add("integer result " + std::to_string((int)q), s, k);
    }
}
struct Sample { Pts x; std::vector<int> y; std::vector<double> t; int ncls; Pts q; std::vector<int> qy; };
// small integer data sets; variant 0..2
inline Sample sample(int v) {
    Sample s;
    if (v == 0) { s.x = {{0, 0}, {4, 1}, {1, 5}, {6, 6}, {7, 2}, {2, 3}}; s.y = {0, 1, 0, 1, 1, 0}; s.ncls = 2; }
    else if (v == 1) { s.x = {{0, 0, 1}, {5, 1, 0}, {1, 6, 2}, {6, 6, 1}, {7, 2, 3}, {2, 3, 5}, {9, 1, 1}}; s.y = {0, 1, 2, 2, 1, 0, 1}; s.ncls = 3; }
    else { s.x = {{1, 2}, {1, 2}, {3, 1}, {3, 4}, {0, 7}, {8, 0}, {2, 2}, {5, 5}}; s.y = {1, 1, 0, 2, 2, 0, 1, 2}; s.ncls = 3; }
    int p = s.x[0].size();
    for (size_t i = 0; i < s.x.size(); i++) { double a = 1; for (int j = 0; j < p; j++) a += (j + 1) * s.x[i][j]; s.t.push_back(a + (i % 3)); }
    for (int i = 0; i < 4; i++) { std::vector<double> r; for (int j = 0; j < p; j++) r.push_back((i * 3 + j * 2 + i * j) % 8); s.q.push_back(r); s.qy.push_back(s.y[i]); }
    return s;
}
template <class T> std::vector<T> cast(const std::vector<double> &v) { return std::vector<T>(v.begin(), v.end()); }
inline std::vector<da_int> ints(const std::vector<int> &v) { return std::vector<da_int>(v.begin(), v.end()); }
// A configured model. The caller's arrays stay alive in the struct, as the library requires.
template <class T> struct Model {
    std::unique_ptr<Handle<T>> h;
    std::string desc;
    da_order o = column_major;
    Sample s;
    Mat<T> X, Q, C0; std::vector<T> t, qt; std::vector<da_int> y, qy;
    da_status st = da_status_success; // of training
    int left = 1 << 30;
    std::vector<T> nlx;
    void *keep = nullptr;
    void start(da_handle_type ht, int v) {
        h.reset(new Handle<T>(ht));
        s = sample(v);
    }
    void data(mc::Ctx &c, int v) {
        h->order(c, o);
        s = sample(v);
        X = rowsof<T>(s.x, o, v); Q = rowsof<T>(s.q, o, v ? 1 : 0);
        t = cast<T>(s.t); y = ints(s.y); qy = ints(s.qy); qt.assign(s.qy.begin(), s.qy.end());
    }
    int n() const { return s.x.size(); }
    int p() const { return s.x[0].size(); }
    int nq() const { return s.q.size(); }
    int ldo(int cols) const { return o == column_major ? nq() : cols; } // leading dimension of an nq x cols output
};
template <class T> struct Kind {
    const char *name;
    da_handle_type ht;
    std::function<void(mc::Ctx &, Model<T> &, int)> configure;   // sets options (small grid)
    std::function<void(mc::Ctx &, Model<T> &)> fit;              // passes data and trains, m.st
    std::function<void(da_handle, Model<T> &, Obs &)> probe;     // predictions of every kind
};
template <class T> void opt(mc::Ctx &c, Model<T> &m, const char *n, const char *v) { m.h->must(c, n, v); m.desc += std::string(n) + "=" + v + "; "; }
template <class T> void opt(mc::Ctx &c, Model<T> &m, const char *n, int v) { m.h->must(c, n, v); m.desc += std::string(n) + "=" + std::to_string(v) + "; "; }
template <class T> void optr(mc::Ctx &c, Model<T> &m, const char *n, double v) { m.h->mustr(c, n, v); char b[40]; snprintf(b, sizeof b, "%g; ", v); m.desc += std::string(n) + "=" + b; }
// m.left: how many calls of the training sequence are still to be made
#define ST(x) do { if (!m.st && m.left > 0) { m.left--; m.st = (x); } } while (0)

template <class T> Kind<T> k_tree() {
    return {"decision tree", da_handle_decision_tree,
        [](mc::Ctx &c, Model<T> &m, int lite) {
            opt(c, m, "scoring function", c.pick(std::vector<const char *>{"gini", "entropy", "misclassification"}));
            opt(c, m, "maximum depth", c.pick(std::vector<int>{29, 1, 0}));
            opt(c, m, "predict probabilities", c.pick(std::vector<const char *>{"yes", "no"}));
            opt(c, m, "seed", 5);
            if (!lite || c.choose(2)) {
                opt(c, m, "histogram", c.pick(std::vector<const char *>{"no", "yes"}));
                int cat = c.choose(3);
                opt(c, m, "detect categorical data", cat ? "yes" : "no");
                opt(c, m, "category split strategy", cat == 2 ? "one-vs-all" : "ordered");
                opt(c, m, "maximum features", c.pick(std::vector<int>{0, 1}));
            }
        },
        [](mc::Ctx &, Model<T> &m) {
            ST(da_tree_set_training_data(*m.h, m.n(), m.p(), m.s.ncls, m.X.p(), m.X.ld, m.y.data(), (const da_int *)nullptr));
            ST(da_tree_fit<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<da_int> p(m.nq(), -9); std::vector<T> r(m.nq() * m.s.ncls, (T)-9); T sc = -9;
            da_status s = da_tree_predict(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data()); o.add("predict", s, p);
            s = da_tree_predict_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.s.ncls, m.ldo(m.s.ncls)); o.add("predict_proba", s, r);
            s = da_tree_predict_log_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.s.ncls, m.ldo(m.s.ncls)); o.add("predict_log_proba", s, r);
            s = da_tree_score(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, m.qy.data(), &sc); o.add("score", s, std::vector<T>{sc});
        }};
}
template <class T> Kind<T> k_forest() {
    return {"decision forest", da_handle_decision_forest,
        [](mc::Ctx &c, Model<T> &m, int lite) {
            opt(c, m, "number of trees", c.pick(std::vector<int>{3, 1}));
            opt(c, m, "seed", 5);
            opt(c, m, "bootstrap", c.pick(std::vector<const char *>{"yes", "no"}));
            opt(c, m, "maximum depth", c.pick(std::vector<int>{29, 1}));
            if (!lite || c.choose(2)) {
                opt(c, m, "features selection", c.pick(std::vector<const char *>{"sqrt", "all", "log2", "proportion"}));
                opt(c, m, "histogram", c.pick(std::vector<const char *>{"no", "yes"}));
                opt(c, m, "scoring function", c.pick(std::vector<const char *>{"gini", "entropy"}));
                opt(c, m, "block size", c.pick(std::vector<int>{256, 3}));
                optr(c, m, "bootstrap samples factor", c.pick(std::vector<double>{1, 0.5}));
            }
        },
        [](mc::Ctx &, Model<T> &m) {
            ST(da_forest_set_training_data(*m.h, m.n(), m.p(), m.s.ncls, m.X.p(), m.X.ld, m.y.data(), (const da_int *)nullptr));
            ST(da_forest_fit<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<da_int> p(m.nq(), -9); std::vector<T> r(m.nq() * m.s.ncls, (T)-9); T sc = -9;
            da_status s = da_forest_predict(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data()); o.add("predict", s, p);
            s = da_forest_predict_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.s.ncls, m.ldo(m.s.ncls)); o.add("predict_proba", s, r);
            s = da_forest_predict_log_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.s.ncls, m.ldo(m.s.ncls)); o.add("predict_log_proba", s, r);
            s = da_forest_score(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, m.qy.data(), &sc); o.add("score", s, std::vector<T>{sc});
        }};
}
template <class T> Kind<T> k_nn() {
    return {"nearest neighbors", da_handle_nn,
        [](mc::Ctx &c, Model<T> &m, int lite) {
            const char *alg = c.pick(std::vector<const char *>{"brute", "kd tree", "ball tree", "auto"});
            opt(c, m, "algorithm", alg);
            std::vector<const char *> met = {"euclidean", "manhattan", "minkowski", "sqeuclidean"};
            if (!strcmp(alg, "brute")) { met.push_back("cosine"); if (!lite) { met.push_back("euclidean_gemm"); met.push_back("inner product"); } }
            const char *mt = c.pick(met);
            opt(c, m, "metric", mt);
            if (!strcmp(mt, "minkowski")) optr(c, m, "minkowski parameter", 3);
            opt(c, m, "number of neighbors", 3);
            optr(c, m, "radius", 4.5);
            opt(c, m, "leaf size", c.pick(std::vector<int>{1, 30}));
            opt(c, m, "weights", c.pick(std::vector<const char *>{"uniform", "distance"}));
            int w = c.choose(3);
            opt(c, m, "outlier handling", w == 0 ? "none" : w == 1 ? "most frequent" : "manual");
            if (w == 2) { opt(c, m, "outlier label", 0); optr(c, m, "outlier target", 2.5); }
        },
        [](mc::Ctx &c, Model<T> &m) {
            int w = c.choose(4);
            m.desc += w & 1 ? "labels; " : ""; m.desc += w & 2 ? "targets; " : "";
            ST(da_nn_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld));
            if (w & 1) ST(da_nn_set_labels<T>(*m.h, m.n(), m.y.data()));
            if (w & 2) ST(da_nn_set_targets<T>(*m.h, m.n(), m.t.data()));
            // some histories compute before saving
            if (c.choose(2)) { m.desc += "radius search before saving; "; ST(da_nn_radius_neighbors<T>(*m.h, m.nq(), m.p(), m.Q.p(), m.Q.ld, (T)5, 1, 1)); }
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            int k = 3, nq = m.nq();
            auto rnn = [&] {
                for (int i = 0; i < nq; i++) {
                    std::vector<da_int> cnt(nq + 1, 0); da_int dim = nq + 1;
                    if (getres(h, da_nn_radius_neighbors_count, &dim, cnt.data())) break;
                    std::vector<da_int> r(std::max<da_int>(cnt[i], 1), 0); r[0] = i; dim = r.size();
                    da_status s = getres(h, da_nn_radius_neighbors_indices_index, &dim, r.data()); o.add("radius indices by query", s, r);
                    std::vector<T> d(std::max<da_int>(cnt[i], 1), 0); d[0] = i; dim = d.size();
                    s = getres(h, da_nn_radius_neighbors_distances_index, &dim, d.data()); o.add("radius distances by query", s, d);
                }
            };
            rnn();
            std::vector<da_int> ind(nq * k, -9); std::vector<T> d(nq * k, -9);
            da_status s = da_nn_kneighbors(h, nq, m.p(), m.Q.p(), m.Q.ld, ind.data(), d.data(), k, 1); o.add("kneighbors indices", s, ind); o.add("kneighbors distances", s, d);
            s = da_nn_radius_neighbors(h, nq, m.p(), m.Q.p(), m.Q.ld, (T)-1, 1, 1); o.add("radius_neighbors", s, std::vector<T>());
            rnn(); query_all<T>(h, o);
            for (int md = 0; md < 2; md++) {
                da_nn_search_mode sm = md ? radius_search_mode : knn_search_mode;
                da_int nc = 0; s = da_nn_classes<T>(h, &nc, (da_int *)nullptr);
                o.add("number of classes", s, std::vector<da_int>{nc});
                std::vector<da_int> cl(std::max<da_int>(nc, 1), -9); if (nc > 0) { s = da_nn_classes<T>(h, &nc, cl.data()); o.add("classes", s, cl); }
                std::vector<T> pr(nq * std::max<da_int>(nc, 1), -9);
                if (nc > 0) { s = da_nn_classifier_predict_proba(h, nq, m.p(), m.Q.p(), m.Q.ld, pr.data(), sm); o.add("classifier proba", s, pr); }
                std::vector<da_int> yp(nq, -9); s = da_nn_classifier_predict(h, nq, m.p(), m.Q.p(), m.Q.ld, yp.data(), sm); o.add("classifier predict", s, yp);
                std::vector<T> yr(nq, -9); s = da_nn_regressor_predict(h, nq, m.p(), m.Q.p(), m.Q.ld, yr.data(), sm); o.add("regressor predict", s, yr);
            }
        }};
}
template <class T> Kind<T> k_approx() {
    return {"approximate neighbors", da_handle_approx_nn,
        [](mc::Ctx &c, Model<T> &m, int) {
            opt(c, m, "metric", c.pick(std::vector<const char *>{"sqeuclidean", "euclidean", "inner product", "cosine"}));
            int nl = c.pick(std::vector<int>{1, 2, 3});
            opt(c, m, "n_list", nl);
            opt(c, m, "n_probe", c.pick(std::vector<int>{1, 2}) > nl ? 1 : nl > 1 ? nl - 1 : 1);
            opt(c, m, "number of neighbors", c.pick(std::vector<int>{1, 2}));
            optr(c, m, "train fraction", c.pick(std::vector<double>{1, 0.75}));
            opt(c, m, "seed", 3);
        },
        [](mc::Ctx &c, Model<T> &m) {
            int w = c.choose(3);
            m.desc += w == 0 ? "train+add; " : w == 1 ? "train, add; " : "train, add, add; ";
            ST(da_approx_nn_set_training_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld));
            if (w == 0) ST(da_approx_nn_train_and_add<T>(*m.h));
            else { ST(da_approx_nn_train<T>(*m.h)); for (int i = 0; i < w; i++) ST(da_approx_nn_add(*m.h, m.n(), m.p(), m.X.p(), m.X.ld)); }
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            for (int k = 0; k < 3; k++) {
                std::vector<da_int> ind(m.nq() * 2, -9); std::vector<T> d(m.nq() * 2, -9);
                da_status s = da_approx_nn_kneighbors(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, ind.data(), d.data(), k, 1);
                o.add("kneighbors indices", s, ind); o.add("kneighbors distances", s, d);
            }
        }};
}
template <class T> Kind<T> k_pca() {
    return {"pca", da_handle_pca,
        [](mc::Ctx &c, Model<T> &m, int) {
            const char *me = c.pick(std::vector<const char *>{"covariance", "correlation", "svd"});
            opt(c, m, "pca method", me);
            std::vector<const char *> so = {"auto", "gesdd", "gesvd", "gesvdx", "randomized"};
            if (strcmp(me, "svd")) so.push_back("syevd");
            const char *sv = c.pick(so);
            opt(c, m, "svd solver", sv);
            opt(c, m, "n_components", c.pick(std::vector<int>{1, 2, 0}));
            opt(c, m, "whiten", c.choose(2));
            opt(c, m, "degrees of freedom", c.pick(std::vector<const char *>{"unbiased", "biased"}));
            opt(c, m, "store U", c.choose(2));
        },
        [](mc::Ctx &, Model<T> &m) { ST(da_pca_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld)); ST(da_pca_compute<T>(*m.h)); },
        [](da_handle h, Model<T> &m, Obs &o) {
            for (int k = 1; k <= m.p(); k++) {
                std::vector<T> r(m.nq() * m.p(), -9);
                da_status s = da_pca_transform(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.ldo(m.p())); if (k == 1) o.add("transform", s, r);
                std::vector<T> z(m.nq() * k); for (size_t i = 0; i < z.size(); i++) z[i] = (T)((int)(i * 3 % 5) - 2);
                std::vector<T> v(m.nq() * m.p(), -9);
                s = da_pca_inverse_transform(h, m.nq(), k, z.data(), m.ldo(k), v.data(), m.ldo(m.p())); o.add("inverse_transform", s, v);
            }
        }};
}
template <class T> Kind<T> k_kpca() {
    return {"kernel pca", da_handle_kernel_pca,
        [](mc::Ctx &c, Model<T> &m, int) {
            const char *ke = c.pick(std::vector<const char *>{"linear", "rbf", "poly", "sigmoid", "precomputed"});
            opt(c, m, "kernel", ke);
            optr(c, m, "gamma", c.pick(std::vector<double>{-1, 0.125}));
            opt(c, m, "degree", 2);
            opt(c, m, "n_components", c.pick(std::vector<int>{0, 2}));
            int iv = strcmp(ke, "precomputed") ? c.choose(2) : 0;
            opt(c, m, "fit inverse transform", iv ? "yes" : "no");
            opt(c, m, "eigensolver", c.pick(std::vector<const char *>{"auto", "randomized"}));
            opt(c, m, "remove zero eig", c.choose(2) ? "yes" : "no");
            opt(c, m, "copy data", c.choose(2) ? "no" : "yes");
            if (!strcmp(ke, "precomputed")) m.keep = (void *)1;
        },
        [](mc::Ctx &, Model<T> &m) {
            if (m.keep) { // symmetric kernel matrix x x'
                int n = m.n(); Pts K(n, std::vector<double>(n)), KQ(m.nq(), std::vector<double>(n));
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < m.p(); k++) K[i][j] += m.s.x[i][k] * m.s.x[j][k];
                for (int i = 0; i < m.nq(); i++) for (int j = 0; j < n; j++) for (int k = 0; k < m.p(); k++) KQ[i][j] += m.s.q[i][k] * m.s.x[j][k];
                m.X = rowsof<T>(K, m.o); m.Q = rowsof<T>(KQ, m.o);
            }
            ST(da_kernel_pca_set_data(*m.h, m.n(), m.X.m, m.X.p(), m.X.ld)); ST(da_kernel_pca_compute<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            da_int nc = 0, one = 1; da_status s = getres(h, da_kernel_pca_n_components, &one, &nc);
            if (s || nc < 1 || nc > m.n()) nc = m.n();
            std::vector<T> r(m.nq() * m.n(), -9);
            s = da_kernel_pca_transform(h, m.nq(), m.Q.m, m.Q.p(), m.Q.ld, r.data(), m.ldo(m.n())); o.add("transform", s, r);
            std::vector<T> z(m.nq() * nc); for (size_t i = 0; i < z.size(); i++) z[i] = (T)((int)(i * 3 % 5) - 2);
            std::vector<T> v(m.nq() * m.n(), -9);
            s = da_kernel_pca_inverse_transform(h, m.nq(), nc, z.data(), m.ldo(nc), v.data(), m.ldo(m.n())); o.add("inverse_transform", s, v);
        }};
}
template <class T> Kind<T> k_kmeans() {
    return {"k-means", da_handle_kmeans,
        [](mc::Ctx &c, Model<T> &m, int) {
            const char *al = c.pick(std::vector<const char *>{"lloyd", "elkan", "hartigan-wong", "macqueen"});
            opt(c, m, "algorithm", al);
            opt(c, m, "n_clusters", c.pick(std::vector<int>{1, 2, 3}));
            const char *in = c.pick(std::vector<const char *>{"k-means++", "random", "random partitions", "supplied", "afk-mc2"});
            opt(c, m, "initialization method", in);
            m.keep = strcmp(in, "supplied") ? nullptr : (void *)1;
            opt(c, m, "n_init", 2);
            opt(c, m, "seed", 3);
            if (strcmp(al, "hartigan-wong")) opt(c, m, "distance", c.pick(std::vector<const char *>{"euclidean", "cosine"}));
            if (strcmp(al, "hartigan-wong") && strcmp(al, "macqueen")) opt(c, m, "mixed precision", c.pick(std::vector<const char *>{"no", "yes"}));
        },
        [](mc::Ctx &, Model<T> &m) {
            ST(da_kmeans_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld));
            if (m.keep) { // first rows of the samples as centres
                da_int k = 1; da_options_get_int(*m.h, "n_clusters", &k);
                Pts C(m.s.x.begin(), m.s.x.begin() + k); m.C0 = rowsof<T>(C, m.o); auto &c0 = m.C0;
                ST(da_kmeans_set_init_centres(*m.h, c0.p(), c0.ld));
            }
            ST(da_kmeans_compute<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<da_int> p(m.nq(), -9); std::vector<T> r(m.nq() * 3, -9);
            da_status s = da_kmeans_predict(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data()); o.add("predict", s, p);
            s = da_kmeans_transform(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.ldo(3)); o.add("transform", s, r);
        }};
}
template <class T> Kind<T> k_linmod() {
    return {"linear model", da_handle_linmod,
        [](mc::Ctx &c, Model<T> &m, int) {
            int lg = c.choose(2); m.keep = lg ? (void *)1 : nullptr;
            da_linmod_select_model<T>(*m.h, lg ? linmod_model_logistic : linmod_model_mse);
            m.desc += lg ? "logistic; " : "mse; ";
            opt(c, m, "intercept", c.choose(2));
            if (lg) {
                opt(c, m, "logistic constraint", c.pick(std::vector<const char *>{"ssc", "rsc"}));
                opt(c, m, "optim method", c.pick(std::vector<const char *>{"auto", "lbfgs"}));
                optr(c, m, "lambda", c.pick(std::vector<double>{0.5, 2}));
            } else {
                const char *me = c.pick(std::vector<const char *>{"auto", "lbfgs", "coord", "qr", "svd", "cholesky", "sparse_cg"});
                opt(c, m, "optim method", me);
                optr(c, m, "lambda", c.pick(std::vector<double>{0, 1}));
                if (!strcmp(me, "coord") || !strcmp(me, "auto")) optr(c, m, "alpha", c.pick(std::vector<double>{0, 0.5, 1}));
                opt(c, m, "scaling", c.pick(std::vector<const char *>{"auto", "none", "centering", "standardize", "scale only"}));
            }
        },
        [](mc::Ctx &, Model<T> &m) {
            if (m.keep) m.t = std::vector<T>(m.s.y.begin(), m.s.y.end());
            ST(da_linmod_define_features(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, m.t.data()));
            ST(da_linmod_fit<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<T> p(m.nq(), -9); T loss = -9; std::vector<T> obs(m.nq()); for (int i = 0; i < m.nq(); i++) obs[i] = m.keep ? (T)(m.qy[i]) : (T)i;
            da_status s = da_linmod_evaluate_model<T>(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data(), (const T *)nullptr, (T *)nullptr); o.add("evaluate", s, p);
            s = da_linmod_evaluate_model<T>(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data(), obs.data(), &loss); o.add("evaluate with loss", s, p); o.add("loss", s, std::vector<T>{loss});
        }};
}
template <class T> Kind<T> k_svm() {
    return {"svm", da_handle_svm,
        [](mc::Ctx &c, Model<T> &m, int) {
            int w = c.choose(4);
            da_svm_model mod[] = {svc, nusvc, svr, nusvr};
            da_svm_select_model<T>(*m.h, mod[w]); m.keep = (void *)(intptr_t)w;
            m.desc += "model " + std::to_string(w) + "; ";
            opt(c, m, "kernel", c.pick(std::vector<const char *>{"rbf", "linear", "polynomial", "sigmoid"}));
            if (w == 1 || w == 3) optr(c, m, "nu", c.pick(std::vector<double>{0.25, 0.5}));
            else optr(c, m, "c", c.pick(std::vector<double>{1, 0.5}));
            optr(c, m, "gamma", c.pick(std::vector<double>{-1, 0.125}));
            if (w < 2) { opt(c, m, "predict probabilities", c.choose(2)); opt(c, m, "n_folds", 2); }
            opt(c, m, "max_iter", 200);
        },
        [](mc::Ctx &, Model<T> &m) {
            if ((intptr_t)m.keep < 2) m.t = std::vector<T>(m.s.y.begin(), m.s.y.end());
            ST(da_svm_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, m.t.data()));
            ST(da_svm_compute<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<T> p(m.nq(), -9); T sc = -9;
            da_status s = da_svm_predict(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, p.data()); o.add("predict", s, p);
            for (int v = 0; v < 2; v++) {
                std::vector<T> d(m.nq() * 3, -9);
                s = da_svm_decision_function(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, v ? ovo : ovr, d.data(), m.ldo(3)); o.add("decision function", s, d);
            }
            s = da_svm_score(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, m.qt.data(), &sc); o.add("score", s, std::vector<T>{sc});
            std::vector<T> r(m.nq() * 3, -9);
            s = da_svm_predict_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.ldo(3)); o.add("predict_proba", s, r);
            s = da_svm_predict_log_proba(h, m.nq(), m.p(), m.Q.p(), m.Q.ld, r.data(), m.ldo(3)); o.add("predict_log_proba", s, r);
        }};
}
template <class T> std::vector<Kind<T>> kinds() { return {k_tree<T>(), k_forest<T>(), k_nn<T>(), k_approx<T>(), k_pca<T>(), k_kpca<T>(), k_kmeans<T>(), k_linmod<T>(), k_svm<T>()}; }
template <class T> void observe(Kind<T> &k, da_handle h, Model<T> &m, Obs &o, bool again = false) {
    query_all<T>(h, o, k.ht != da_handle_linmod ? 0 : again ? 2 : 1);
    k.probe(h, m, o);
}
}
