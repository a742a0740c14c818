// Shared by C11/C12/C13: neighbour searches over enumerated data sets.
#pragma once
#include "da.hpp"
struct Met { const char *name; int kind; double p; bool tree, exact; };
// kind: 0 euclid 1 sqeuclid 2 manhattan 3 cosine 4 minkowski 5 inner product
static const Met METS[] = {
    {"euclidean", 0, 2, true, true}, {"manhattan", 2, 1, true, true}, {"minkowski", 4, 3, true, false}, {"sqeuclidean", 1, 2, false, true},
    {"euclidean_gemm", 0, 2, true, true}, {"inner product", 5, 2, false, true}, {"cosine", 3, 2, false, false},
    {"sqeuclidean_gemm", 1, 2, false, true}, {"minkowski", 4, 2, true, true}, {"minkowski", 4, 0.5, false, false}, {"minkowski", 4, 1, true, false},
    {"cityblock", 2, 1, true, true}, {"l2", 0, 2, true, true}, {"minkowski", 4, 1.5, true, false}};
static const int NMET = sizeof METS / sizeof *METS;
struct Alg { const char *name; int leaf; };
static const Alg ALGS[] = {{"brute", 30}, {"kd tree", 1}, {"ball tree", 1}, {"kd tree", 2}, {"ball tree", 2}, {"kd tree", 3}, {"ball tree", 3}, {"auto", 1}};
static const int NALG = 8;
typedef std::vector<std::vector<double>> Pts;
inline double refdist(const Met &m, const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0, na = 0, nb = 0;
    for (size_t i = 0; i < a.size(); i++) {
        double d = std::fabs(a[i] - b[i]);
        switch (m.kind) {
        case 0: case 1: s += d * d; break;
        case 2: s += d; break;
        case 4: s += std::pow(d, m.p); break;
        default: s += a[i] * b[i]; na += a[i] * a[i]; nb += b[i] * b[i];
        }
    }
    switch (m.kind) {
    case 0: return std::sqrt(s);
    case 4: return std::pow(s, 1 / m.p);
    case 3: return 1 - s / ((na > 0 ? std::sqrt(na) : 1) * (nb > 0 ? std::sqrt(nb) : 1));
    default: return s;
    }
}
struct Cfg { int met, alg; da_order o; int pad; };
template <class T> void configure(mc::Ctx &c, Handle<T> &h, const Cfg &g) {
    h.order(c, g.o);
    h.must(c, "algorithm", ALGS[g.alg].name);
    h.must(c, "leaf size", ALGS[g.alg].leaf);
    h.must(c, "metric", METS[g.met].name);
    if (METS[g.met].kind == 4) h.mustr(c, "minkowski parameter", METS[g.met].p);
}
// a metric/algorithm pair, pruned when the documentation says it is refused
inline Cfg choose_cfg(mc::Ctx &c, int nmet, int nalg, bool orders = true) {
    Cfg g;
    g.met = c.choose(nmet, "metric"); g.alg = c.choose(nalg, "algorithm");
    if (!METS[g.met].tree && (ALGS[g.alg].name[0] == 'k' || ALGS[g.alg].name[1] == 'a')) c.prune();
    int k = orders ? c.choose(2, "layout") : 0;
    g.o = k ? row_major : column_major;
    g.pad = k ? 0 : (orders ? 0 : 1);
    return g;
}
template <class T> double tolof(const Met &m) { return m.exact ? 4 * eps<T>() : 200 * eps<T>(); }
inline std::string desc(const Cfg &g, const Pts &x) {
    return std::string(METS[g.met].name) + " p=" + std::to_string(METS[g.met].p) + " " + ALGS[g.alg].name + " leaf " + std::to_string(ALGS[g.alg].leaf) + " " +
           ordn(g.o) + " pad " + std::to_string(g.pad) + " data " + pts(x);
}
template <class T> void check_knn(mc::Ctx &c, Handle<T> &h, const Cfg &g, const Pts &x, const Pts &q, int k, bool dist, int kopt = 0, double slack = 1) {
    const Met &m = METS[g.met];
    int n = x.size(), nq = q.size(), kk = k <= 0 ? kopt : k;
    auto Q = rowsof<T>(q, g.o, g.pad);
    std::vector<da_int> ind((size_t)nq * kk, -99);
    std::vector<T> ds((size_t)nq * kk, NANV<T>());
    c.op();
    da_status st = da_nn_kneighbors<T>(h, nq, q[0].size(), Q.p(), Q.ld, ind.data(), dist ? ds.data() : nullptr, k, dist);
    if (kk > n || kk <= 0) {
        if (!st) c.fail("knn:k-accepted", "k=%d accepted with %d training points; %s", kk, n, desc(g, x).c_str());
        for (auto i : ind) if (i != -99) c.fail("knn:refused-wrote", "refused call wrote output");
        return;
    }
    if (st) c.fail("knn:status", "status %d for k=%d; %s", (int)st, k, desc(g, x).c_str());
    double tol = tolof<T>(m) * slack;
    for (int i = 0; i < nq; i++) {
        std::vector<double> all(n);
        double sc = 1;
        for (int j = 0; j < n; j++) all[j] = refdist(m, x[j], q[i]), sc = std::max(sc, std::fabs(all[j]));
        auto s = all;
        std::sort(s.begin(), s.end());
        if (m.kind == 5) std::reverse(s.begin(), s.end());
        std::vector<int> got;
        for (int a = 0; a < kk; a++) {
            size_t at = g.o == column_major ? (size_t)a * nq + i : (size_t)i * kk + a;
            int id = ind[at];
            if (id < 0 || id >= n) c.fail("knn:index", "neighbour %d of query %s is index %d; k=%d %s", a, str(q[i]).c_str(), id, kk, desc(g, x).c_str());
            for (int o : got) if (o == id) c.fail("knn:duplicate", "index %d returned twice for query %s; k=%d %s", id, str(q[i]).c_str(), kk, desc(g, x).c_str());
            got.push_back(id);
            if (!(std::fabs(all[id] - s[a]) <= tol * sc))
                c.fail("knn:notnearest", "neighbour %d of query %s is point %d at distance %.9g but the %d-th smallest distance is %.9g; k=%d %s", a,
                       str(q[i]).c_str(), id, all[id], a, s[a], kk, desc(g, x).c_str());
            // a root turns an error of one ulp of the square into its square root near zero
            if (dist && !(std::fabs(ds[at] - all[id]) <= tol * sc) &&
                !(m.kind == 0 && slack > 1 && std::fabs((double)ds[at] * ds[at] - all[id] * all[id]) <= tol * sc * sc * 10))
                c.fail("knn:distance", "distance reported for point %d from %s is %.9g, true %.9g; k=%d %s", id, str(q[i]).c_str(), (double)ds[at], all[id], kk,
                       desc(g, x).c_str());
        }
        if (dist) for (int a = 1; a < kk; a++) {
            double p = g.o == column_major ? ds[(size_t)(a - 1) * nq + i] : ds[(size_t)i * kk + a - 1], r = g.o == column_major ? ds[(size_t)a * nq + i] : ds[(size_t)i * kk + a];
            if (m.kind == 5 ? r > p : r < p) c.fail("knn:order", "distances out of order for query %s: %g then %g; %s", str(q[i]).c_str(), p, r, desc(g, x).c_str());
        }
    }
    c.out(hvec(ind));
}
template <class T> struct Data { // the library keeps pointers to the caller's arrays
    Mat<T> X;
    Data(const Pts &x, const Cfg &g) : X(rowsof<T>(x, g.o, g.pad)) {}
};
template <class T> void set_data(mc::Ctx &c, Handle<T> &h, const Cfg &g, const Pts &x, Data<T> &d) {
    c.op();
    da_status st = da_nn_set_data<T>(h, x.size(), x[0].size(), d.X.p(), d.X.ld);
    if (st) c.fail("nn:set_data", "set_data gave status %d; %s", (int)st, desc(g, x).c_str());
}
static const Pts G1 = {{0}, {1}, {3}, {4}};
static const Pts Q1 = {{-1}, {0}, {1}, {2}, {3.5}, {6}};
static const Pts G2 = {{0, 0}, {1, 0}, {0, 2}, {2, 1}, {3, -1}};
static const Pts Q2 = {{0, 0}, {1, 1}, {2, 1}, {-1, 3}, {0.5, 0.5}};
static const Pts G3 = {{0, 0, 1}, {1, 2, 0}, {-1, 0, 2}, {2, 2, 2}};
static const Pts Q3 = {{0, 0, 0}, {1, 2, 0}, {1, 1, 1}};
inline Pts choose_points(mc::Ctx &c, const Pts &grid, int n) {
    Pts x;
    for (int i = 0; i < n; i++) x.push_back(grid[c.choose(grid.size())]);
    return x;
}
