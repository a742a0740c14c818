// Decision trees: every node of a fitted tree against the definition of a greedy tree.
#pragma once
#include "da.hpp"
#include "tree/decision_tree.hpp"
#include "da_handle.hpp"
#include <set>
namespace AG = da_dynamic_dispatch_generic;
using namespace da_tree_options_types;
template <class T> using DT = da_dynamic_dispatch_generic::da_decision_forest::decision_tree<T>;
template <class T> using Node = da_dynamic_dispatch_generic::da_decision_forest::node<T>;
typedef std::vector<std::vector<double>> Pts;
struct Opt {
    int score = 0, depth = mc::lite() ? 3 : 8, minn = 2, nfeat = 0, hist = 0, bins = 256, cat = 0; // cat: 0 no, 1 given, 2 detected
    bool onevall = false; double minscore = 0, mindec = 0, fthr = 1e-5; da_order o = column_major; int pad = 0; int seed = 7, nthr = 1;
};
static std::string desc(const Opt &g, const Pts &x, const std::vector<int> &y) {
    char b[300];
    snprintf(b, 300, "score %d depth %d min %d nfeat %d hist %d bins %d cat %d onevall %d minscore %g mindec %g fthr %g order %s pad %d data ", g.score, g.depth,
             g.minn, g.nfeat, g.hist, g.bins, g.cat, g.onevall, g.minscore, g.mindec, g.fthr, ordn(g.o), g.pad);
    return b + pts(x) + " labels " + str(y);
}
static double impurity(int kind, const std::vector<double> &cnt) {
    double n = 0, s = 0, mx = 0;
    for (double v : cnt) n += v, mx = std::max(mx, v);
    if (n == 0) return 0;
    if (kind == 2) return 1 - mx / n;
    for (double v : cnt) { double p = v / n; if (kind == 0) s += p * p; else if (p > 0) s -= p * std::log2(p); }
    return kind == 0 ? 1 - s : s;
}
template <class T> void configure(mc::Ctx &c, Handle<T> &h, const Opt &g) {
    static const char *sc[] = {"gini", "cross-entropy", "misclassification"};
    h.must(c, "scoring function", sc[g.score]);
    h.must(c, "maximum depth", g.depth);
    h.must(c, "node minimum samples", g.minn);
    h.must(c, "maximum features", g.nfeat);
    h.must(c, "histogram", g.hist ? "yes" : "no");
    h.must(c, "maximum bins", g.bins);
    h.must(c, "category split strategy", g.onevall ? "one-vs-all" : "ordered");
    h.must(c, "detect categorical data", g.cat == 2 ? "yes" : "no");
    h.mustr(c, "minimum split score", g.minscore);
    h.mustr(c, "minimum impurity decrease", g.mindec);
    h.mustr(c, "feature threshold", g.fthr);
    h.must(c, "seed", g.seed);
    h.order(c, g.o);
}
template <class T> struct Fit { const DT<T> *t; std::vector<Node<T>> nd; };
// is the value left of the split?
template <class T> bool goes_left(const Node<T> &n, T v) {
    return n.prop == categorical_onevall ? (double)std::round(v) == (double)n.category : v < n.x_threshold;
}
// check the tree against the (weighted) training sample; weights: how often each sample was drawn
template <class T> void check_tree(mc::Ctx &c, DT<T> *t, const Opt &g, const Pts &x, const std::vector<int> &y, int nc, const std::vector<double> &w, da_int nn,
                                   const std::vector<da_int> &ncat, std::vector<int> *leaf_of = nullptr) {
    int n = x.size(), m = x[0].size();
    auto &nd = t->get_tree();
    auto D = [&] { return desc(g, x, y) + " weights " + str(w); };
    double tol = 2000 * eps<T>();
    double total = 0; for (double v : w) total += v;
    std::vector<std::vector<T>> X(n, std::vector<T>(m));
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) X[i][j] = (T)x[i][j];
    if (leaf_of) leaf_of->assign(n, -1);
    struct It { int id, depth; std::vector<int> s; };
    std::vector<It> st;
    std::vector<int> all(n); for (int i = 0; i < n; i++) all[i] = i;
    std::vector<int> tr; for (int i = 0; i < n; i++) if (w[i] > 0) tr.push_back(i);
    st.push_back({0, 0, tr});
    int seen = 0, leaves = 0, maxdepth = 0;
    std::set<int> vis;
    while (!st.empty()) {
        It it = st.back(); st.pop_back();
        if (it.id < 0 || it.id >= nn || it.id >= (int)nd.size()) c.fail("tree:link", "child index %d of %d nodes; %s", it.id, (int)nn, D().c_str());
        if (!vis.insert(it.id).second) c.fail("tree:link", "node %d reached twice; %s", it.id, D().c_str());
        const Node<T> &q = nd[it.id];
        seen++; maxdepth = std::max(maxdepth, it.depth);
        std::vector<double> cnt(nc, 0);
        double ns = 0;
        for (int i : it.s) cnt[y[i]] += w[i], ns += w[i];
        if (ns == 0) c.fail("tree:empty", "node %d holds no sample; %s", it.id, D().c_str());
        if (q.depth != it.depth) c.fail("tree:depth", "node %d says depth %d, is at %d; %s", it.id, (int)q.depth, it.depth, D().c_str());
        if (it.depth > g.depth) c.fail("tree:depth", "node %d at depth %d beyond the maximum; %s", it.id, it.depth, D().c_str());
        if (q.n_samples != (da_int)ns) c.fail("tree:samples", "node %d says %d samples, prediction routes %d there; %s", it.id, (int)q.n_samples, (int)ns, D().c_str());
        double imp = impurity(g.score, cnt);
        if (!near(q.score, imp, tol)) c.fail("tree:score", "node %d score %.17g, samples there give %.17g; %s", it.id, (double)q.score, imp, D().c_str());
        double mx = *std::max_element(cnt.begin(), cnt.end());
        if (q.y_pred < 0 || q.y_pred >= nc || cnt[q.y_pred] != mx) c.fail("tree:majority", "node %d predicts class %d, counts %s; %s", it.id, (int)q.y_pred, str(cnt).c_str(), D().c_str());
        // candidate splits: the best weighted impurity over all features and over each feature
        double best = 1e300, bestf = 1e300;
        bool optimal = true; // whether the optimum is known for this configuration
        for (int f = 0; f < m; f++) {
            bool oneall = false;
            std::vector<double> cuts; // continuous: cut values; onevall: categories
            std::set<double> vals;
            for (int i : it.s) vals.insert(X[i][f]);
            if (g.hist) {
                // cut between two values that the bins tell apart
                auto &b = *t->X_binned;
                int nb = b.nbins[f];
                // one-vs-all when the bins are the categories 0, 1, ...
                oneall = g.onevall && nb < b.max_bin;
                for (int i = 0; i < n && oneall; i++) if (x[i][f] != b.binned_data[f * n + i]) oneall = false;
                if (!oneall) {
                    for (int k = 0; k + 1 < nb; k++) { T th = b.thresholds[f * (b.max_bin - 1) + k]; cuts.push_back(th); }
                }
            } else oneall = g.onevall && ncat.size() && ncat[f] > 0;
            if (oneall) for (int k = 0; k < (g.hist ? t->X_binned->nbins[f] : ncat[f]); k++) cuts.push_back(k);
            else if (!g.hist) {
                double prev = 0; bool first = true;
                for (double v : vals) {
                    if (!first && v - prev >= g.fthr && v > prev) cuts.push_back(v);
                    if (!first && v - prev < g.fthr * 1.5 && g.fthr > 0) optimal = false;
                    prev = v; first = false;
                }
            }
            double bf = 1e300;
            for (double cu : cuts) {
                std::vector<double> l(nc, 0), r(nc, 0); double nl = 0, nr = 0;
                for (int i : it.s) {
                    bool left = oneall ? std::round(X[i][f]) == cu : (double)X[i][f] < cu;
                    (left ? l : r)[y[i]] += w[i]; (left ? nl : nr) += w[i];
                }
                if (nl < g.minn || nr < g.minn || nl == 0 || nr == 0) continue;
                double s = (nl * impurity(g.score, l) + nr * impurity(g.score, r)) / ns;
                bf = std::min(bf, s);
            }
            best = std::min(best, bf);
            if (!q.is_leaf && q.feature == f) bestf = bf;
        }
        double gain = best > 1e200 ? -1 : ns / total * (imp - best);
        if (q.is_leaf) {
            leaves++;
            if (leaf_of) for (int i : it.s) (*leaf_of)[i] = it.id;
            bool may = it.depth < g.depth && imp > g.minscore + tol && ns >= 2 * g.minn && gain > g.mindec + tol && gain > tol;
            if (may && optimal && (g.nfeat == 0 || g.nfeat >= m))
                c.fail("tree:stopped", "node %d was not split though a split improves the impurity by %.9g (allowed above %g); samples %s; %s", it.id, gain, g.mindec, str(it.s).c_str(), D().c_str());
            continue;
        }
        if (q.feature < 0 || q.feature >= m) c.fail("tree:feature", "node %d splits on feature %d; %s", it.id, (int)q.feature, D().c_str());
        if (it.depth >= g.depth) c.fail("tree:depth", "node %d at the maximum depth is split; %s", it.id, D().c_str());
        if (imp < g.minscore - tol) c.fail("tree:minscore", "node %d with score %g is split below the minimum split score; %s", it.id, imp, D().c_str());
        It L{(int)q.left_child_idx, it.depth + 1, {}}, R{(int)q.right_child_idx, it.depth + 1, {}};
        double nl = 0, nr = 0; std::vector<double> l(nc, 0), r(nc, 0);
        double lmax = -INFINITY, rmin = INFINITY;
        for (int i : it.s) {
            bool left = goes_left(q, X[i][q.feature]);
            (left ? L : R).s.push_back(i);
            (left ? l : r)[y[i]] += w[i]; (left ? nl : nr) += w[i];
            if (left) lmax = std::max(lmax, (double)X[i][q.feature]); else rmin = std::min(rmin, (double)X[i][q.feature]);
        }
        if (nl < g.minn || nr < g.minn) c.fail("tree:minsamples", "node %d is split into %g and %g samples, minimum %d; %s", it.id, nl, nr, g.minn, D().c_str());
        if (q.prop != categorical_onevall && !(lmax < q.x_threshold && q.x_threshold <= rmin))
            c.fail("tree:threshold", "node %d: threshold %.17g between %.17g and %.17g; %s", it.id, (double)q.x_threshold, lmax, rmin, D().c_str());
        double s = (nl * impurity(g.score, l) + nr * impurity(g.score, r)) / ns;
        if (!(ns / total * (imp - s) > g.mindec - tol)) c.fail("tree:gain", "node %d is split for a gain of %g; %s", it.id, ns / total * (imp - s), D().c_str());
        double ref = (g.nfeat == 0 || g.nfeat >= m) ? best : bestf;
        if (optimal && s > ref + tol)
            c.fail("tree:notbest", "node %d is split on feature %d with impurity %.12g, the best split gives %.12g; samples %s; %s", it.id, (int)q.feature, s, ref, str(it.s).c_str(), D().c_str());
        st.push_back(R); st.push_back(L);
    }
    if (seen != nn) c.fail("tree:nodes", "%d nodes reachable of %d; %s", seen, (int)nn, D().c_str());
    if (t->get_n_leaves() != leaves) c.fail("tree:leaves", "reports %d leaves, has %d; %s", (int)t->get_n_leaves(), leaves, D().c_str());
}
// predictions: class, probabilities, logs and accuracy of a fitted tree on the given points
template <class T> void check_predict(mc::Ctx &c, Handle<T> &h, DT<T> *t, const Opt &g, const Pts &q, const Pts &x, const std::vector<int> &y, int nc, const std::vector<double> &w) {
    auto D = [&] { return desc(g, x, y); };
    int nq = q.size(), m = q[0].size();
    auto &nd = t->get_tree();
    auto Q = rowsof<T>(q, g.o, g.pad);
    std::vector<da_int> yp(nq, -9);
    Mat<T> P(nq, nc, g.o, g.pad, (T)-5), LP(nq, nc, g.o, g.pad, (T)-5);
    c.op(4);
    da_status s1 = da_tree_predict<T>(h, nq, m, Q.p(), Q.ld, yp.data());
    da_status s2 = da_tree_predict_proba<T>(h, nq, m, Q.p(), Q.ld, P.p(), nc, P.ld);
    da_status s3 = da_tree_predict_log_proba<T>(h, nq, m, Q.p(), Q.ld, LP.p(), nc, LP.ld);
    if (s1 || s2 || s3) c.fail("tree:predict", "predict %d proba %d log %d; %s", (int)s1, (int)s2, (int)s3, D().c_str());
    if (!P.pad_ok() || !LP.pad_ok() || !Q.pad_ok()) c.fail("tree:padding", "padding written; %s", D().c_str());
    auto leaf = [&](const std::vector<double> &v) {
        int k = 0;
        while (!nd[k].is_leaf) k = goes_left(nd[k], (T)v[nd[k].feature]) ? nd[k].left_child_idx : nd[k].right_child_idx;
        return k;
    };
    std::map<int, std::vector<double>> cnt;
    for (size_t i = 0; i < x.size(); i++) { auto &v = cnt[leaf(x[i])]; v.resize(nc); v[y[i]] += w[i]; }
    for (int i = 0; i < nq; i++) {
        int k = leaf(q[i]);
        if (yp[i] != nd[k].y_pred) c.fail("tree:class", "%s is in leaf %d of class %d, predicted %d; %s", str(q[i]).c_str(), k, (int)nd[k].y_pred, (int)yp[i], D().c_str());
        auto &v = cnt[k]; double s = 0; for (double z : v) s += z;
        double mx = 0, pp = 0;
        for (int j = 0; j < nc; j++) {
            if (v.empty() || !near(P(i, j), v[j] / s, 20 * eps<T>()))
                c.fail("tree:proba", "%s: probability of class %d is %.9g, its leaf %d has %s; %s", str(q[i]).c_str(), j, (double)P(i, j), k, str(v).c_str(), D().c_str());
            T lg = std::log(P(i, j));
            if (!(lg == LP(i, j) || near(LP(i, j), lg, 20 * eps<T>()))) c.fail("tree:log", "log probability %g of %g; %s", (double)LP(i, j), (double)P(i, j), D().c_str());
            mx = std::max(mx, (double)P(i, j)); if (j == yp[i]) pp = P(i, j);
        }
        if (pp != mx) c.fail("tree:argmax", "class %d predicted with probability %g, the largest is %g; %s", (int)yp[i], pp, mx, D().c_str());
        c.out(hvec(std::vector<double>{(double)yp[i], (double)P(i, 0)}));
    }
    for (int a = 0; a < 2; a++) {
        std::vector<da_int> yt(nq); int good = 0;
        for (int i = 0; i < nq; i++) { yt[i] = a ? (yp[i] + i % 2) % nc : yp[i]; good += yt[i] == yp[i]; }
        T acc = -1;
        da_status s = da_tree_score<T>(h, nq, m, Q.p(), Q.ld, yt.data(), &acc);
        if (s || !near(acc, (double)good / nq, 4 * eps<T>())) c.fail("tree:accuracy", "score status %d value %g, %d of %d right; %s", (int)s, (double)acc, good, nq, D().c_str());
    }
}
template <class T> void fit_check(mc::Ctx &c, Handle<T> &h, const Opt &g, const Pts &x, const std::vector<int> &y, int nc, const Pts &q, std::vector<da_int> ncat = {}) {
    int n = x.size(), m = x[0].size();
    configure(c, h, g);
    auto X = rowsof<T>(x, g.o, g.pad);
    std::vector<da_int> Y(y.begin(), y.end());
    c.op(2);
    auto D = [&] { return desc(g, x, y); };
    da_status s = da_tree_set_training_data<T>(h, n, m, nc, X.p(), X.ld, Y.data(), g.cat == 1 ? ncat.data() : nullptr);
    if (s) c.fail("tree:data", "set_training_data status %d; %s", (int)s, D().c_str());
    s = da_tree_fit<T>(h);
    if (s) c.fail("tree:fit", "fit status %d; %s", (int)s, D().c_str());
    auto *t = dynamic_cast<DT<T> *>(h.h->template get_alg_handle<T>());
    auto R = get<T>(c, h, da_rinfo, 8, "rinfo");
    std::vector<double> w(n, 1);
    int ncl = nc ? nc : *std::max_element(y.begin(), y.end()) + 1;
    check_tree(c, t, g, x, y, ncl, w, (da_int)R[5], ncat);
    int md = 0, lv = 0;
    for (int i = 0; i < (int)R[5]; i++) md = std::max(md, (int)t->get_tree()[i].depth), lv += t->get_tree()[i].is_leaf;
    if ((int)R[0] != m || (int)R[1] != n || (int)R[2] != n || (int)R[3] != g.seed || (int)R[4] != md || (int)R[6] != lv)
        c.fail("tree:rinfo", "rinfo %s, tree of depth %d with %d leaves; %s", str(R).c_str(), md, lv, D().c_str());
    check_predict(c, h, t, g, q, x, y, ncl, w);
}
// multisets of (row, label)
static void multiset(mc::Ctx &c, int n, int vals, int m, int nc, Pts &x, std::vector<int> &y, double step = 1, double off = 0) {
    int K = nc; for (int j = 0; j < m; j++) K *= vals;
    int lo = 0;
    for (int i = 0; i < n; i++) {
        lo += c.choose(K - lo);
        int k = lo; y.push_back(k % nc); k /= nc;
        std::vector<double> r;
        for (int j = 0; j < m; j++) r.push_back(off + step * (k % vals)), k /= vals;
        x.push_back(r);
    }
}
static Pts grid(int vals, int m, double step, double off) {
    Pts q; int K = 1; for (int j = 0; j < m; j++) K *= vals;
    for (int k = 0; k < K; k++) { std::vector<double> r; int z = k; for (int j = 0; j < m; j++) r.push_back(off + step * (z % vals)), z /= vals; q.push_back(r); }
    return q;
}
