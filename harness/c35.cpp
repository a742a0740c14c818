// C35: every result query of every handle kind, in every state of the handle, with every array size around the one needed.
#include "da.hpp"
#include "models2.hpp"
using namespace models;
static const da_result QS[] = {
    (da_result)0, da_rinfo, da_trained, (da_result)3, da_linmod_coef, da_linmod_dual_coef, da_pca_scores, da_pca_variance, da_pca_principal_components,
    da_pca_total_variance, da_pca_column_means, da_pca_column_sdevs, da_pca_u, da_pca_sigma, da_pca_vt, da_kernel_pca_n_components, da_kernel_pca_eigenvalues,
    da_kernel_pca_eigenvectors, da_kernel_pca_scores, da_kernel_pca_dual_coef, da_kernel_pca_gamma, da_kernel_pca_X_fit, da_kmeans_cluster_centres, da_kmeans_labels,
    da_dbscan_labels, da_dbscan_n_clusters, da_dbscan_n_core_samples, da_dbscan_core_sample_indices, da_nn_radius_neighbors_count, da_nn_radius_neighbors_offsets,
    da_nn_radius_neighbors_indices, da_nn_radius_neighbors_distances, da_svm_n_support_vectors, da_svm_n_support_vectors_per_class, da_svm_idx_support_vectors,
    da_svm_n_iterations, da_svm_support_vectors, da_svm_bias, da_svm_probaA, da_svm_probaB, da_svm_dual_coef, da_svm_lp_n_iterations, da_approx_nn_cluster_centroids,
    da_approx_nn_list_sizes, da_cubic_spline_coefficients, da_tsne_embedding, (da_result)1500, (da_result)-1};
static std::string show(da_result q) { return "query " + std::to_string((int)q); }
static std::string sopt(da_handle h, const char *n) { char b[80]; da_int z = 80; return da_options_get_string(h, n, b, &z) ? "" : b; }
static int iopt(da_handle h, const char *n) { da_int v = -1; return da_options_get(h, n, &v) ? -1 : (int)v; }
// What the documentation promises of a trained handle: -2 not available, -1 available with any size, otherwise its size.
template <class T> int expected(Kind<T> &k, Model<T> &m, da_result q, bool isint, bool rnn) {
    int n = m.n(), p = m.p(), NO = -2, ANY = -1;
    da_handle h = *m.h;
    if (q == da_trained) return isint ? 1 : NO;
    switch (k.ht) {
    case da_handle_decision_tree: return !isint && q == da_rinfo ? ANY : NO;
    case da_handle_decision_forest: return !isint && q == da_rinfo ? ANY : NO;
    case da_handle_nn:
        if (!rnn) return q >= da_nn_radius_neighbors_count && q <= da_nn_radius_neighbors_distances ? -3 : NO;
        if (isint && (q == da_nn_radius_neighbors_count || q == da_nn_radius_neighbors_offsets)) return m.nq() + 1;
        if (isint && q == da_nn_radius_neighbors_indices) return ANY;
        return !isint && q == da_nn_radius_neighbors_distances ? ANY : NO;
    case da_handle_approx_nn:
        if (isint) return q == da_approx_nn_list_sizes ? iopt(h, "n_list") : NO;
        return q == da_rinfo ? 4 : q == da_approx_nn_cluster_centroids ? iopt(h, "n_list") * p : NO;
    case da_handle_pca: {
        if (isint) return NO;
        int nc = iopt(h, "n_components"), mx = std::min(n, p); nc = nc ? std::min(nc, mx) : mx;
        std::string me = sopt(h, "pca method");
        if (q == da_rinfo) return 3;
        if (q == da_pca_scores || q == da_pca_u) return iopt(h, "store U") ? n * nc : NO;
        if (q == da_pca_variance || q == da_pca_sigma) return nc;
        if (q == da_pca_principal_components) return nc * p;
        if (q == da_pca_vt) return ANY;
        if (q == da_pca_total_variance) return 1;
        if (q == da_pca_column_means) return me == "svd" ? NO : p;
        if (q == da_pca_column_sdevs) return me == "correlation" ? p : NO;
        return NO;
    }
    case da_handle_kernel_pca: {
        int nf = m.X.m; // columns of the matrix passed
        if (q == da_kernel_pca_n_components) return isint ? 1 : -3; // documented as a result, of either type
        if (isint) return NO;
        if (q == da_rinfo) return 2;
        if (q == da_kernel_pca_gamma) return 1;
        if (q == da_kernel_pca_eigenvalues || q == da_kernel_pca_eigenvectors || q == da_kernel_pca_scores) return ANY;
        if (q == da_kernel_pca_dual_coef) return sopt(h, "fit inverse transform") == "yes" ? n * nf : NO;
        if (q == da_kernel_pca_X_fit) return -3;
        return NO;
    }
    case da_handle_kmeans:
        if (isint) return q == da_kmeans_labels ? n : NO;
        return q == da_rinfo ? 6 : q == da_kmeans_cluster_centres ? iopt(h, "n_clusters") * p : NO;
    case da_handle_linmod: {
        if (isint) return NO;
        if (q == da_rinfo) return 100;
        if (q == da_linmod_coef) { int per = p + iopt(h, "intercept"), nc = m.s.ncls; return m.keep ? (nc == 2 ? per : sopt(h, "logistic constraint") == "ssc" || sopt(h, "logistic constraint") == "symmetric side" ? per * nc : per * (nc - 1)) : per; }
        if (q == da_linmod_dual_coef) return -3;
        return NO;
    }
    case da_handle_svm:
        if (isint) return q == da_svm_n_support_vectors ? 1 : q == da_svm_n_support_vectors_per_class || q == da_svm_idx_support_vectors || q == da_svm_n_iterations || q == da_svm_lp_n_iterations ? ANY : NO;
        if (q == da_rinfo) return 100;
        return q == da_svm_support_vectors || q == da_svm_bias || q == da_svm_dual_coef ? ANY : q == da_svm_probaA || q == da_svm_probaB ? -3 : NO;
    case da_handle_dbscan:
        if (isint) return q == da_dbscan_labels ? n : q == da_dbscan_n_clusters || q == da_dbscan_n_core_samples ? 1 : q == da_dbscan_core_sample_indices ? ANY : NO;
        return q == da_rinfo ? 9 : NO;
    case da_handle_nlls: return !isint && q == da_rinfo ? 100 : NO;
    case da_handle_interpolation: return isint ? NO : q == da_rinfo ? 1 : q == da_cubic_spline_coefficients ? 4 * (n - 1) * p : NO;
    case da_handle_tsne: return isint ? NO : q == da_rinfo ? 6 : q == da_tsne_embedding ? n * iopt(h, "n_components") : NO;
    default: return NO;
    }
}
static bool documented_gap(da_handle_type k, da_result q) { return (k == da_handle_svm || k == da_handle_nlls || k == da_handle_linmod) && q == da_rinfo; } // "reserved" entries
// all sizes of one query through one getter
template <class T, class R> void sizes(mc::Ctx &c, da_handle h, da_handle_type kt, da_result q, int exp, const std::string &what) {
    const R A = (R)-77, B = (R)55;
    auto call = [&](da_int d, R fill, std::vector<R> &r, da_int &dim) { r.assign(2000, fill); dim = d; c.op(); return getres<R>(h, q, &dim, r.data()); };
    auto clean = [&](const std::vector<R> &r, size_t from, R f) { for (size_t i = from; i < r.size(); i++) if (r[i] != f) return false; return true; };
    std::vector<R> r, r2; da_int d;
    const char *ty = std::is_same_v<R, da_int> ? "integer" : "real";
    da_status st = call(-5, A, r, d);
    if (st != da_status_success && st != da_status_invalid_array_dimension) { // refused
        if (exp != -2 && exp != -3) c.fail("result:refused", "%s (%s) gave status %d; %s", show(q).c_str(), ty, (int)st, what.c_str());
        if (!clean(r, 0, A)) c.fail("result:refused-wrote", "%s (%s) was refused with status %d and wrote to the array; %s", show(q).c_str(), ty, (int)st, what.c_str());
        for (da_int z : {0, 1, 1500}) {
            da_status s2 = call(z, B, r, d);
            if (s2 != st || d != z || !clean(r, 0, B)) c.fail("result:refused-size", "%s (%s): status %d with size -5, status %d with size %d%s; %s", show(q).c_str(), ty, (int)st, (int)s2, (int)z, clean(r, 0, B) ? "" : " and the array was written", what.c_str());
        }
        return;
    }
    if (exp == -2) c.fail("result:unexpected", "%s (%s) gave status %d though the result is not available; %s", show(q).c_str(), ty, (int)st, what.c_str());
    da_int need = d;
    if (st == da_status_success) c.fail("result:negative-size", "%s (%s) accepted an array of size -5; %s", show(q).c_str(), ty, what.c_str());
    if (need < 0 || need > 1500 || (exp >= 0 && need != exp)) c.fail("result:size", "%s (%s) asks for %d elements, expected %d; %s", show(q).c_str(), ty, (int)need, exp, what.c_str());
    std::vector<R> ref;
    for (da_int z : {(da_int)-1, (da_int)0, (da_int)1, need - 1, need, need + 1, 2 * need + 9}) {
        R f = z & 1 ? A : B;
        st = call(z, f, r, d);
        if (z < need) {
            if (st != da_status_invalid_array_dimension || d != need || !clean(r, 0, f)) c.fail("result:too-small", "%s (%s) with size %d of %d gave status %d, size %d%s; %s", show(q).c_str(), ty, (int)z, (int)need, (int)st, (int)d, clean(r, 0, f) ? "" : " and wrote to the array", what.c_str());
        } else {
            if (st) c.fail("result:large-enough", "%s (%s) with size %d of %d gave status %d; %s", show(q).c_str(), ty, (int)z, (int)need, (int)st, what.c_str());
            if (!clean(r, need, f)) c.fail("result:overrun", "%s (%s) with size %d wrote beyond the %d elements; %s", show(q).c_str(), ty, (int)z, (int)need, what.c_str());
            r2.clear(); call(z, f == A ? B : A, r2, d);
            R g = f == A ? B : A;
            for (da_int i = 0; i < need; i++) {
                bool unset = r[i] == f && r2[i] == g;
                if (unset && documented_gap(kt, q)) { if (kt != da_handle_linmod && i >= 3) { r[i] = 0; continue; } }
                if (unset) c.fail("result:incomplete", "%s (%s): element %d of %d is not set; %s", show(q).c_str(), ty, (int)i, (int)need, what.c_str());
                if (memcmp(&r[i], &r2[i], sizeof(R))) c.fail("result:repeat", "%s (%s): element %d differs between two queries; %s", show(q).c_str(), ty, (int)i, what.c_str());
            }
            r.resize(need);
            if (ref.empty()) ref = r; else if (memcmp(ref.data(), r.data(), need * sizeof(R))) c.fail("result:size-dependent", "%s (%s) depends on the size of the array; %s", show(q).c_str(), ty, what.c_str());
        }
    }
}
// radius neighbours one query point at a time
template <class T> void by_index(mc::Ctx &c, da_handle h, int nq, bool rnn, const std::string &what) {
    std::vector<da_int> cnt, ind; std::vector<T> dis;
    bool avail = rnn && !query(h, da_nn_radius_neighbors_count, cnt) && !query(h, da_nn_radius_neighbors_indices, ind) && !query(h, da_nn_radius_neighbors_distances, dis);
    if (rnn && !avail) c.fail("result:radius", "the radius search results are not available; %s", what.c_str());
    int at = 0;
    for (int i = -1; i <= nq; i++) {
        int k = rnn && i >= 0 && i < nq ? cnt[i] : 0;
        for (int z : {1, k - 1, k, k + 3}) {
            if (z < 1) continue;
            std::vector<da_int> a(200, -77); std::vector<T> b(200, -77); a[0] = i; b[0] = i;
            da_int d1 = z, d2 = z;
            da_status s1 = da_handle_get_result_int(h, da_nn_radius_neighbors_indices_index, &d1, a.data()), s2 = da_handle_get_result<T>(h, da_nn_radius_neighbors_distances_index, &d2, b.data());
            bool ok = rnn && i >= 0 && i < nq;
            da_status w = ok ? (z < k ? da_status_invalid_array_dimension : da_status_success) : da_status_invalid_input;
            if (ok ? s1 != w || s2 != w : s1 == 0 || s2 == 0) c.fail("result:index", "neighbours of query %d with size %d of %d: status %d and %d; %s", i, z, k, (int)s1, (int)s2, what.c_str());
            if (ok && z < k && (d1 != k || d2 != k)) c.fail("result:index-size", "neighbours of query %d: sizes %d and %d stated instead of %d; %s", i, (int)d1, (int)d2, k, what.c_str());
            for (int j = 0; j < 200; j++) {
                bool in = ok && z >= k && j < k;
                da_int wa = in ? ind[at + j] : j ? -77 : i; T wb = in ? dis[at + j] : j ? (T)-77 : (T)i;
                if (a[j] != wa || b[j] != wb) c.fail("result:index-value", "neighbours of query %d, size %d, element %d is %d / %g, expected %d / %g; %s", i, z, j, (int)a[j], (double)b[j], (int)wa, (double)wb, what.c_str());
            }
        }
        at += k;
    }
}
template <class T> void body(mc::Ctx &c) {
    auto ks = allkinds<T>();
    auto &k = ks[c.choose(ks.size(), "kind")];
    int state = c.choose(4, "state"); // initialised, configured, data passed, trained
    int v = state == 3 ? c.choose(mc::lite() ? 2 : 3, "sample") : 0;
    Model<T> m; m.start(k.ht, v); m.o = (mc::lite() ? v % 2 : c.choose(2, "order")) ? row_major : column_major;
    if (state) k.configure(c, m, 1);
    if (state >= 2) { m.data(c, v); if (state == 2) m.left = 1; k.fit(c, m); }
    da_handle h = *m.h;
    std::string what = std::string(k.name) + ", state " + std::to_string(state) + ", sample " + std::to_string(v) + ", order " + std::to_string((int)m.o) + ": " + m.desc;
    if (m.st) return; // this configuration does not apply to the sample
    bool trained = state == 3 || (state == 2 && k.ht == da_handle_nn); // lazy: the data make the neighbours handle usable
    bool rnn = state == 3; // the probe below searches too
    if (state == 3 && k.ht == da_handle_nn) { Obs w; k.probe(h, m, w); }
    Obs before; query_all<T>(h, before, k.ht == da_handle_linmod ? 2 : 0);
    if (state == 3) k.probe(h, m, before);
    for (int pass = 0; pass < (mc::thorough() ? 2 : 1); pass++)
        for (da_result q : QS) {
            int es = !trained ? (q == da_trained ? 0 : -2) : expected(k, m, q, false, rnn), ei = !trained ? (q == da_trained ? 1 : -2) : expected(k, m, q, true, rnn);
            if (q == da_trained) { es = -2; ei = 1; }
            if (state == 2 && k.ht == da_handle_nn && q != da_trained && es >= -1) es = -3;
            if (state == 2 && k.ht == da_handle_nn && q != da_trained && ei >= -1) ei = -3;
            sizes<T, T>(c, h, k.ht, q, es, what);
            sizes<T, da_int>(c, h, k.ht, q, ei, what);
            // the other precision, and missing arguments
            using O = std::conditional_t<std::is_same_v<T, float>, double, float>;
            O r[4] = {7, 7, 7, 7}; da_int d = 4; T t[4] = {7, 7, 7, 7};
            da_status s1 = da_handle_get_result<O>(h, q, &d, r), s2 = da_handle_get_result<T>(h, q, nullptr, t), s3 = da_handle_get_result<T>(h, q, &d, nullptr);
            if (s1 != da_status_wrong_type || r[0] != 7 || d != 4) c.fail("result:precision", "%s through the getter of the other precision gave status %d; %s", show(q).c_str(), (int)s1, what.c_str());
            if (!s2 || !s3 || t[0] != 7) c.fail("result:null", "%s with a null argument gave status %d and %d; %s", show(q).c_str(), (int)s2, (int)s3, what.c_str());
        }
    if (k.ht == da_handle_nn) by_index<T>(c, h, m.nq(), rnn, what);
    std::vector<da_int> tr; da_status s = query(h, da_trained, tr);
    if (s || tr[0] != (state == 3)) if (!(state == 2 && k.ht == da_handle_nn)) c.fail("result:trained", "da_trained: status %d, value %d; %s", (int)s, s ? -1 : (int)tr[0], what.c_str());
    if (state == 3) { // the reported sizes of the problem
        std::vector<T> r; int n = m.n(), p = m.p();
        if (!query(h, da_rinfo, r)) {
            auto at = [&](size_t i, double w) { if (r[i] != (T)w) c.fail("result:info", "information %d is %g, expected %g; %s", (int)i, (double)r[i], w, what.c_str()); };
            switch (k.ht) {
            case da_handle_decision_tree: case da_handle_decision_forest: at(0, p); at(1, n); break;
            case da_handle_linmod: at(10, n); at(11, p); if (m.keep) at(12, m.s.ncls); break;
            case da_handle_svm: at(0, n); at(1, p); break;
            case da_handle_kernel_pca: at(0, n); at(1, m.X.m); break;
            case da_handle_approx_nn: at(0, iopt(h, "n_list")); at(2, p); break;
            case da_handle_kmeans: at(0, n); at(1, p); at(2, iopt(h, "n_clusters")); break;
            case da_handle_interpolation: at(0, n); break;
            case da_handle_tsne: at(0, n); at(1, p); at(2, iopt(h, "n_components")); break;
            case da_handle_pca: case da_handle_dbscan: at(0, n); at(1, p); break;
            default: break;
            }
        }
    }
    Obs after; query_all<T>(h, after, k.ht == da_handle_linmod ? 2 : 0);
    if (state == 3) k.probe(h, m, after);
    std::string diff = show_diff(before, after);
    if (!diff.empty()) c.fail("result:altered", "the queries altered the handle: %s; %s", diff.c_str(), what.c_str());
}
void mc::register_all() {
    mc::add("double", 3, [](mc::Ctx &c) { body<double>(c); });
    if (!mc::lite()) mc::add("single", 3, [](mc::Ctx &c) { body<float>(c); });
}
