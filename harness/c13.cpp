// C13: classification and regression from neighbours.
#include "nn.hpp"
// points are chosen so that no query has two different neighbour sets of equal size: ties in distance at the
// k-th place leave the choice to the library, so the reference is built from the neighbours it reports
struct Ref { std::vector<std::vector<int>> nb; std::vector<std::vector<double>> d; };
template <class T> Ref refnb(mc::Ctx &c, Handle<T> &h, const Cfg &g, const Pts &x, const Pts &q, int k, double r) {
    Ref R; R.nb.resize(q.size()); R.d.resize(q.size());
    const Met &m = METS[g.met];
    if (k) {
        auto Q = rowsof<T>(q, g.o, g.pad);
        std::vector<da_int> ind(q.size() * k);
        std::vector<T> ds(q.size() * k);
        c.op();
        da_status st = da_nn_kneighbors<T>(h, q.size(), q[0].size(), Q.p(), Q.ld, ind.data(), ds.data(), k, 1);
        if (st) c.fail("c13:knn", "kneighbors status %d", (int)st);
        for (size_t i = 0; i < q.size(); i++) for (int a = 0; a < k; a++) {
            size_t at = g.o == column_major ? (size_t)a * q.size() + i : i * k + a;
            R.nb[i].push_back(ind[at]); R.d[i].push_back(refdist(m, x[ind[at]], q[i]));
        }
    } else
        for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < x.size(); j++) {
            double d = refdist(m, x[j], q[i]);
            if (d <= r) { R.nb[i].push_back(j); R.d[i].push_back(d); }
        }
    return R;
}
static const int LBL[] = {-7, 0, 5};
template <class T> void classify(mc::Ctx &c, const Pts &x0, const Pts &q, int n, std::vector<int> mets, std::vector<int> algs) {
    Cfg g; g.met = c.pick(mets, "metric"); g.alg = c.pick(algs, "algorithm");
    if (!METS[g.met].tree && g.alg) c.prune();
    g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    bool dist = c.choose(2, "weights");
    int outl = c.choose(4, "outlier"); // none, manual present/absent label, most frequent
    std::vector<da_int> y(n);
    Pts x(x0.begin(), x0.begin() + n);
    for (auto &v : y) v = LBL[c.choose(3)];
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    h.must(c, "weights", dist ? "distance" : "uniform");
    h.must(c, "outlier handling", outl == 0 ? "none" : outl == 3 ? "most frequent" : "manual");
    int manual = outl == 2 ? 77 : 5;
    h.must(c, "outlier label", manual);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    c.op();
    if (da_nn_set_labels<T>(h, n, y.data())) c.fail("c13:labels", "set_labels failed");
    std::vector<int> cls(y.begin(), y.end());
    std::sort(cls.begin(), cls.end());
    cls.erase(std::unique(cls.begin(), cls.end()), cls.end());
    int nc = cls.size();
    da_int ncr = 0;
    std::vector<da_int> clsr(8, -1);
    c.op();
    da_status st = da_nn_classes<T>(h, &ncr, nullptr); // the size first
    if (!st) st = da_nn_classes<T>(h, &ncr, clsr.data());
    if (st || ncr != nc) c.fail("c13:classes", "da_nn_classes: status %d, %d classes, expected %d", (int)st, (int)ncr, nc);
    for (int i = 0; i < nc; i++) if (clsr[i] != cls[i]) c.fail("c13:classes", "class %d is %d, expected %d", i, (int)clsr[i], cls[i]);
    std::map<int, int> fr; for (auto v : y) fr[v]++;
    int mf = y[0], mfc = 0; for (auto &p : fr) if (p.second > mfc) mf = p.first, mfc = p.second;
    auto Q = rowsof<T>(q, g.o, g.pad);
    int nq = q.size();
    for (int mode = 0; mode < 4; mode++) { // k=1,2,3 and radius
        int k = mode < 3 ? std::min(mode + 1, n) : 0;
        std::vector<double> radii = {-1};
        if (!k) radii = {0.25, 1.7, 2.3, 5.3}; // no distance equals one of these
        for (double r : radii) {
        if (k) { // documented order: options, then data
            h.must(c, "number of neighbors", k);
            set_data(c, h, g, x, d);
            if (da_nn_set_labels<T>(h, n, y.data())) c.fail("c13:labels", "set_labels failed");
        } else h.mustr(c, "radius", r);
        Ref R;
        Mat<T> P(nq, nc, g.o, 0, (T)-5);
        std::vector<da_int> yp(nq, -99);
        da_nn_search_mode sm = k ? knn_search_mode : radius_search_mode;
        c.op(2);
        da_status s1 = da_nn_classifier_predict_proba<T>(h, nq, q[0].size(), Q.p(), Q.ld, P.p(), sm);
        da_status s2 = da_nn_classifier_predict<T>(h, nq, q[0].size(), Q.p(), Q.ld, yp.data(), sm);
        if (s1 == da_status_option_locked || s2 == da_status_option_locked) c.fail("c13:locked", "option locked");
        R = refnb(c, h, g, x, q, k, r);
        bool empty = false;
        for (auto &v : R.nb) if (v.empty()) empty = true;
        char what[1200];
        snprintf(what, sizeof what, "weights %s outliers %d k=%d r=%g y=%s %.700s", dist ? "distance" : "uniform", outl, k, r, str(y).c_str(), desc(g, x).c_str());
        if (empty && outl == 0) {
            if (s1 != da_status_operation_failed || s2 != da_status_operation_failed) c.fail("c13:outlier-none", "outlier with handling none: statuses %d %d; %s", (int)s1, (int)s2, what);
            continue;
        }
        if (empty && outl == 2 && s1 != da_status_outlier_warning) c.fail("c13:outlier-warn", "no warning (%d); %s", (int)s1, what);
        bool ok1 = s1 == da_status_success || (empty && s1 == da_status_outlier_warning), ok2 = s2 == da_status_success || (empty && s2 == da_status_outlier_warning);
        if (!ok1 || !ok2) c.fail("c13:status", "statuses %d %d; %s", (int)s1, (int)s2, what);
        for (int i = 0; i < nq; i++) {
            std::vector<double> p(nc, 0);
            double tot = 0;
            for (size_t a = 0; a < R.nb[i].size(); a++) {
                double w = !dist ? 1 : R.d[i][a] <= eps<T>() ? 1 : 1 / R.d[i][a];
                p[std::lower_bound(cls.begin(), cls.end(), y[R.nb[i][a]]) - cls.begin()] += w;
                tot += w;
            }
            int lab; double best = -1; bool tie = false;
            if (R.nb[i].empty()) {
                if (outl == 3) { p[std::lower_bound(cls.begin(), cls.end(), mf) - cls.begin()] = 1; lab = mf; }
                else {
                    auto it = std::find(cls.begin(), cls.end(), manual);
                    if (it != cls.end()) p[it - cls.begin()] = 1;
                    lab = manual;
                }
            } else {
                for (auto &v : p) v /= tot;
                lab = 0;
                for (int j = 0; j < nc; j++) {
                    if (p[j] > best + 1e-9 * 1) best = p[j], lab = cls[j], tie = false;
                    else if (dist && std::fabs(p[j] - best) < 1e-4) tie = true;
                }
                if (dist) { double b2 = *std::max_element(p.begin(), p.end()); for (int j = 0; j < nc; j++) if (p[j] != b2 && b2 - p[j] < 1e-4) tie = true; }
            }
            for (int j = 0; j < nc; j++)
                if (!(std::fabs(P(i, j) - p[j]) <= 300 * eps<T>()))
                    c.fail("c13:proba", "query %s: probability of class %d is %.9g, expected %.9g; %s", str(q[i]).c_str(), cls[j], (double)P(i, j), p[j], what);
            if (yp[i] != lab && !tie) c.fail("c13:label", "query %s: label %d, expected %d; %s", str(q[i]).c_str(), (int)yp[i], lab, what);
            if (tie && std::find(cls.begin(), cls.end(), yp[i]) == cls.end()) c.fail("c13:label", "query %s: label %d is no class; %s", str(q[i]).c_str(), (int)yp[i], what);
        }
        c.out(hvec(yp));
        }
    }
}
template <class T> void regress(mc::Ctx &c, const Pts &G, const Pts &q, int n, std::vector<int> mets, std::vector<int> algs) {
    Cfg g; g.met = c.pick(mets, "metric"); g.alg = c.pick(algs, "algorithm");
    if (!METS[g.met].tree && g.alg) c.prune();
    g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    bool dist = c.choose(2, "weights");
    int outl = c.choose(3, "outlier");
    Pts x = choose_points(c, G, n);
    static const double YV[] = {1, -2, 8, 0.5, 16, -32};
    std::vector<T> y(n);
    for (int i = 0; i < n; i++) y[i] = YV[i];
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    h.must(c, "weights", dist ? "distance" : "uniform");
    h.must(c, "outlier handling", outl == 0 ? "none" : outl == 2 ? "most frequent" : "manual");
    h.mustr(c, "outlier target", -123.5);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    if (da_nn_set_targets<T>(h, n, y.data())) c.fail("c13:targets", "set_targets failed");
    double mean = 0; for (auto v : y) mean += v; mean /= n;
    auto Q = rowsof<T>(q, g.o, g.pad);
    int nq = q.size();
    for (int mode = 0; mode < 4; mode++) {
        int k = mode < 3 ? std::min(mode + 1, n) : 0;
        std::vector<double> radii = {-1};
        if (!k) radii = {0.25, 1.7, 2.3, 5.3}; // no distance equals one of these
        for (double r : radii) {
        if (k) {
            h.must(c, "number of neighbors", k);
            set_data(c, h, g, x, d);
            if (da_nn_set_targets<T>(h, n, y.data())) c.fail("c13:targets", "set_targets failed");
        } else h.mustr(c, "radius", r);
        std::vector<T> yp(nq, (T)-777);
        c.op();
        da_status st = da_nn_regressor_predict<T>(h, nq, q[0].size(), Q.p(), Q.ld, yp.data(), k ? knn_search_mode : radius_search_mode);
        Ref R = refnb(c, h, g, x, q, k, r);
        bool empty = false;
        for (auto &v : R.nb) if (v.empty()) empty = true;
        char what[1200];
        snprintf(what, sizeof what, "weights %s outliers %d k=%d r=%g %.700s", dist ? "distance" : "uniform", outl, k, r, desc(g, x).c_str());
        if (empty && outl == 0) { if (st != da_status_operation_failed) c.fail("c13:r-outlier-none", "status %d; %s", (int)st, what); continue; }
        if (empty && outl == 1 && st != da_status_outlier_warning) c.fail("c13:r-outlier-warn", "status %d; %s", (int)st, what);
        if (!(empty && outl == 1) && st) c.fail("c13:r-status", "status %d; %s", (int)st, what);
        for (int i = 0; i < nq; i++) {
            double s = 0, w = 0;
            for (size_t a = 0; a < R.nb[i].size(); a++) {
                double wt = !dist ? 1 : R.d[i][a] <= eps<T>() ? 1 : 1 / R.d[i][a];
                s += wt * y[R.nb[i][a]]; w += wt;
            }
            double e = R.nb[i].empty() ? (outl == 1 ? -123.5 : mean) : s / w;
            if (!(std::fabs(yp[i] - e) <= 300 * eps<T>() * 32)) c.fail("c13:target", "query %s: target %.9g, expected %.9g; %s", str(q[i]).c_str(), (double)yp[i], e, what);
        }
        c.out(hvec(yp));
        }
    }
}
// more neighbours asked for than there are points
template <class T> void toomany(mc::Ctx &c) {
    Cfg g; g.met = 0; g.alg = c.choose(5, "algorithm"); g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    int n = 1 + c.choose(3), k = n + 1 + c.choose(2), what = c.choose(3);
    bool dist = c.choose(2);
    Pts x(G2.begin(), G2.begin() + n);
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    h.must(c, "weights", dist ? "distance" : "uniform");
    h.must(c, "number of neighbors", k);
    Data<T> d(x, g);
    c.op();
    da_status st = da_nn_set_data<T>(h, n, 2, d.X.p(), d.X.ld);
    if (st) { c.out(st); return; }
    std::vector<da_int> y = {3, 4, 5}, yp(2); std::vector<T> yr = {1, 2, 3}, tp(8);
    da_nn_set_labels<T>(h, n, y.data()); da_nn_set_targets<T>(h, n, yr.data());
    Pts q = {{0, 0}, {1, 1}};
    auto Q = rowsof<T>(q, g.o, 0);
    c.op();
    if (what == 0) st = da_nn_classifier_predict<T>(h, 2, 2, Q.p(), Q.ld, yp.data(), knn_search_mode);
    else if (what == 1) st = da_nn_classifier_predict_proba<T>(h, 2, 2, Q.p(), Q.ld, tp.data(), knn_search_mode);
    else st = da_nn_regressor_predict<T>(h, 2, 2, Q.p(), Q.ld, tp.data(), knn_search_mode);
    if (!st) c.fail("c13:k-accepted", "prediction %d from %d neighbours of %d points succeeded; %s weights %d", what, k, n, desc(g, x).c_str(), dist);
    c.out(st);
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    static const Pts X = {{0, 0}, {1, 0}, {0, 2}, {3, 1}, {-1, -1}, {2, 2}}, Q = {{0, 0}, {1, 1}, {9, 9}, {2, 1}, {0, 1}};
    std::vector<int> mets = {0, 2, 4, 3, 6, 8, 13}, algs = {0, 1, 2};
    if (l) mets = {0, 2, 3};
    add("classify<double>", 5, [=](mc::Ctx &c) { classify<double>(c, X, Q, t ? 6 : l ? 3 : 5, mets, algs); });
    add("classify<float>", 5, [=](mc::Ctx &c) { classify<float>(c, X, Q, t ? 5 : l ? 2 : 4, {0, 2, 6}, algs); });
    add("regress<double>", 5, [=](mc::Ctx &c) { regress<double>(c, G2, Q, t ? 5 : l ? 2 : 4, mets, algs); });
    add("regress<float>", 5, [=](mc::Ctx &c) { regress<float>(c, G2, Q, t ? 4 : l ? 2 : 3, {0, 2, 6}, algs); });
    // the query with most neighbours last
    static const Pts QL = {{9, 9}, {3, -1}, {1, 0.5}};
    add("regress-last<double>", 5, [=](mc::Ctx &c) { regress<double>(c, G2, QL, l ? 2 : 4, {0, 2}, algs); });
    add("toomany<double>", 3, toomany<double>);
    add("toomany<float>", 3, toomany<float>);
}
