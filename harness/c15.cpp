// C15: k-means ends in a consistent clustering no worse than its start. Every small data set, every set of starting
// centres, every algorithm, empty-cluster rule and layout is run, and the result judged by the definition.
#include "da.hpp"
#include <omp.h>
typedef long double L;
typedef std::vector<std::vector<double>> Pts;
static const char *KALG[] = {"lloyd", "elkan", "macqueen", "hartigan-wong"};
static const char *KEMPTY[] = {"ignore", "error", "split"};
static const char *KINIT[] = {"supplied", "k-means++", "random", "random partitions", "afk-mc2"};
// threads: 0 one; 1 two configured but none granted; n>1 n real threads
struct KCfg {
    int alg = 0, empty = 0, init = 0, k = 1, seed = 0, ninit = 1, maxit = 300, thr = 0, pad = 0;
    bool cosine = false, lp = false, norm = true;
    double tol = 0;
    da_order o = column_major;
};
struct Threads {
    Threads(int t) { if (t) omp_set_num_threads(t == 1 ? 2 : t); if (t == 1) omp_set_max_active_levels(0); }
    ~Threads() { omp_set_max_active_levels(1); omp_set_num_threads(1); }
};
static std::string say(const Pts &x, const Pts &s, const KCfg &g) {
    char b[300];
    snprintf(b, sizeof b, "%s, empty %s, init %s, k=%d seed %d n_init %d max_iter %d tol %g %s%s%s %s pad %d threads mode %d; ", KALG[g.alg], KEMPTY[g.empty], KINIT[g.init], g.k,
             g.seed, g.ninit, g.maxit, g.tol, g.cosine ? "cosine " : "", g.norm ? "" : "unnormalised ", g.lp ? "mixed precision" : "", ordn(g.o), g.pad, g.thr);
    return b + (x.size() <= 16 ? "data " + pts(x) : std::to_string(x.size()) + " points") + (s.size() && s.size() <= 8 ? " start " + pts(s) : "");
}
static L dot(const std::vector<L> &a, const std::vector<L> &b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static std::vector<L> wide(const std::vector<double> &a) { return std::vector<L>(a.begin(), a.end()); }
static std::vector<L> unit(std::vector<L> a) { L n = sqrtl(dot(a, a)); if (n > 0) for (auto &v : a) v /= n; return a; }
static L sq(const std::vector<L> &a, const std::vector<L> &b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
template <class T> struct Res { da_status st = da_status_success; std::vector<da_int> lab; std::vector<T> cen; T rinfo[6]; std::vector<std::vector<L>> C; };
template <class T> void setup(mc::Ctx &c, Handle<T> &h, const KCfg &g) {
    h.order(c, g.o);
    h.must(c, "algorithm", KALG[g.alg]); h.must(c, "empty clusters", KEMPTY[g.empty]); h.must(c, "initialization method", KINIT[g.init]);
    h.must(c, "n_init", g.ninit); h.must(c, "max_iter", g.maxit); h.must(c, "seed", g.seed); h.mustr(c, "convergence tolerance", g.tol);
    h.must(c, "distance", g.cosine ? "cosine" : "euclidean"); h.must(c, "normalize data", g.norm ? "yes" : "no"); h.must(c, "mixed precision", g.lp ? "yes" : "no");
    h.must(c, "n_clusters", g.k);
}
template <class T> L dist(const KCfg &g, const std::vector<L> &x, const std::vector<L> &ctr) {
    if (!g.cosine) return sq(x, ctr);
    L n = g.norm ? sqrtl(dot(x, x)) : 1;
    return 1 - (n > 0 ? dot(x, ctr) / n : 0);
}
// bound on the error of a squared distance formed as |x|^2+|c|^2-2xc in T
template <class T> L dtol(const KCfg &g, const std::vector<L> &x, const std::vector<L> &ctr) {
    L m = g.cosine ? 2 + (g.norm ? 0 : sqrtl(dot(x, x))) : dot(x, x) + dot(ctr, ctr);
    return 8 * (L)eps<T>() * (x.size() + 4) * m;
}
template <class T> Res<T> results(mc::Ctx &c, Handle<T> &h, const Pts &x, const Pts &s, const KCfg &g) {
    int n = x.size(), m = x[0].size();
    Res<T> r;
    r.lab.assign(n, -7); r.cen.assign((size_t)g.k * m, NANV<T>());
    da_int d = n;
    if (da_handle_get_result(h, da_kmeans_labels, &d, r.lab.data())) c.fail("kmeans:labels", "no labels; %s", say(x, s, g).c_str());
    d = g.k * m;
    if (getres<T>(h, da_kmeans_cluster_centres, &d, r.cen.data())) c.fail("kmeans:centres", "no centres; %s", say(x, s, g).c_str());
    d = 6;
    if (getres<T>(h, da_rinfo, &d, r.rinfo)) c.fail("kmeans:rinfo", "no rinfo; %s", say(x, s, g).c_str());
    r.C.assign(g.k, std::vector<L>(m));
    for (int i = 0; i < g.k; i++) for (int j = 0; j < m; j++) r.C[i][j] = g.o == column_major ? r.cen[(size_t)j * g.k + i] : r.cen[(size_t)i * m + j];
    return r;
}
template <class T> da_status train(mc::Ctx &c, Handle<T> &h, const Mat<T> &X, const Mat<T> &S, const KCfg &g) {
    setup(c, h, g);
    da_status st = da_kmeans_set_data<T>(h, X.n, X.m, X.p(), X.ld);
    if (st) c.fail("kmeans:set_data", "set_data gave status %d", (int)st);
    if (!g.init && (st = da_kmeans_set_init_centres<T>(h, S.p(), S.ld))) c.fail("kmeans:set_init", "set_init_centres gave status %d", (int)st);
    c.op();
    Threads t(g.thr);
    return da_kmeans_compute<T>(h);
}
template <class T> void judge(mc::Ctx &c, Handle<T> &h, da_status st, const Pts &x, const Pts &s, const KCfg &g) {
    int n = x.size(), m = x[0].size();
    if (g.lp && sizeof(T) == 4 && st == da_status_invalid_option) { c.out(12); return; } // no half precision on this machine
    bool hwbad = g.alg == 3 && (g.k == 1 || g.k >= n || g.cosine);
    if (hwbad) { if (st != da_status_incompatible_options) c.fail("kmeans:hwargs", "status %d for an unsupported Hartigan-Wong problem; %s", (int)st, say(x, s, g).c_str()); return; }
    if (st == da_status_empty_clusters && (g.empty == 1 || g.alg == 3)) {
        da_int d = n; std::vector<da_int> l(n);
        // n distinct starting points leave no cluster empty at first
        bool all = true;
        if (g.init == 0) {
            std::vector<int> cnt(g.k, 0);
            for (auto &p : x) {
                std::vector<L> dd;
                for (auto &q : s) dd.push_back(dist<T>(g, wide(p), g.cosine ? unit(wide(q)) : wide(q)));
                L mn = *std::min_element(dd.begin(), dd.end());
                for (int i = 0; i < g.k; i++) if (dd[i] <= mn + 1e-5) cnt[i]++;
            }
            for (int v : cnt) all = all && v;
        } else all = false;
        (void)all; (void)l; (void)d;
        c.out(5);
        return;
    }
    bool warn = st == da_status_incompatible_options && (g.alg == 3 || (g.init == 0 && g.ninit > 1));
    if (st && st != da_status_maxit && !warn) c.fail("kmeans:status", "compute gave status %d; %s", (int)st, say(x, s, g).c_str());
    Res<T> r = results(c, h, x, s, g);
    std::vector<std::vector<L>> X;
    for (auto &p : x) X.push_back(wide(p));
    L inertia = 0, itol = 0, start = 0;
    std::vector<int> cnt(g.k, 0);
    bool zero = false; // cosine of a zero vector is not defined
    if (g.cosine) for (auto &p : X) zero = zero || dot(p, p) == 0;
    for (int i = 0; i < n; i++) {
        int l = r.lab[i];
        if (l < 0 || l >= g.k) c.fail("kmeans:label-range", "label %d of point %d; %s", l, i, say(x, s, g).c_str());
        cnt[l]++;
        for (auto v : r.C[l]) if (!std::isfinite((double)v)) c.fail("kmeans:nan-centre", "point %d has a centre which is not finite; %s", i, say(x, s, g).c_str());
        L mine = dist<T>(g, X[i], r.C[l]), e = dtol<T>(g, X[i], r.C[l]), best = mine; int bi = l;
        for (int j = 0; j < g.k; j++) { L d = dist<T>(g, X[i], r.C[j]); if (d < best) best = d, bi = j; }
        if (best < mine - e - dtol<T>(g, X[i], r.C[bi]) && !zero && !(g.alg == 3 && st == da_status_maxit))
            c.fail("kmeans:nearest", "point %d is labelled %d at %s %.9Lg but centre %d is at %.9Lg; labels %s status %d; %s", i, l, g.cosine ? "cosine distance" : "squared distance", mine, bi, best,
                   n < 20 ? str(r.lab).c_str() : "...", (int)st, say(x, s, g).c_str());
        inertia += mine; itol += e;
        if (g.init == 0) {
            L b = INFINITY;
            for (auto &q : s) b = std::min(b, dist<T>(g, X[i], g.cosine ? unit(wide(q)) : wide(q)));
            start += b;
        }
    }
    if (!(fabsl((L)r.rinfo[4] - inertia) <= itol + 8 * (L)eps<T>() * n * (inertia + 1)) && !zero)
        c.fail("kmeans:inertia", "inertia reported %.9g, sum over the points %.9Lg; %s", (double)r.rinfo[4], inertia, say(x, s, g).c_str());
    if (g.init == 0 && inertia > start + itol * 4 + (g.lp ? 0.02L * (start + n) : 8 * (L)eps<T>() * n * start) && !zero)
        c.fail("kmeans:uphill", "inertia %.9Lg is worse than %.9Lg of the supplied centres; %s", inertia, start, say(x, s, g).c_str());
    double want[4] = {(double)n, (double)m, (double)g.k, (double)r.rinfo[3]};
    for (int i = 0; i < 3; i++) if ((double)r.rinfo[i] != want[i]) c.fail("kmeans:rinfo", "rinfo[%d]=%g; %s", i, (double)r.rinfo[i], say(x, s, g).c_str());
    if (r.rinfo[3] < 0 || r.rinfo[3] > g.maxit) c.fail("kmeans:iters", "%g iterations reported of at most %d; %s", (double)r.rinfo[3], g.maxit, say(x, s, g).c_str());
    if (st == da_status_success || warn) {
        bool strict = g.tol == 0;
        if (strict && !zero) for (int j = 0; j < g.k; j++) if (cnt[j]) {
            std::vector<L> mean(m, 0);
            L big = 0;
            for (int i = 0; i < n; i++) if (r.lab[i] == j) {
                auto p = g.cosine && g.norm ? unit(X[i]) : X[i];
                for (int q = 0; q < m; q++) mean[q] += p[q], big = std::max(big, fabsl(p[q]));
            }
            if (g.empty == 2) for (auto &p : X) for (auto v : p) big = std::max(big, g.cosine ? (L)1 : fabsl(v)); // points are taken out of a mean one by one
            L len = sqrtl(dot(mean, mean));
            if (g.cosine && len < 1e-3) continue; // opposite directions have no mean direction
            for (auto &v : mean) v /= g.cosine ? len : cnt[j];
            L e = 4 * (L)eps<T>() * (cnt[j] + 4) * big * (g.cosine ? 4 * cnt[j] / len : 1);
            if (g.alg == 3) e *= n + g.maxit / 10; // Hartigan-Wong updates its means incrementally
            for (int q = 0; q < m; q++) if (!(fabsl(mean[q] - r.C[j][q]) <= e))
                c.fail("kmeans:mean", "centre %d is %.9Lg in coordinate %d but the mean of its %d points is %.9Lg; labels %s iterations %g; %s", j, r.C[j][q], q, cnt[j], mean[q],
                       n < 20 ? str(r.lab).c_str() : "...", (double)r.rinfo[3], say(x, s, g).c_str());
        }
        if (strict && (g.empty == 1 || g.alg == 3)) for (int j = 0; j < g.k; j++) if (!cnt[j])
            c.fail("kmeans:empty", "success with cluster %d empty although empty clusters are errors; %s", j, say(x, s, g).c_str());
    }
    c.out(mc::mix(hvec(r.lab), (uint64_t)st));
}
// predict and transform on other points
template <class T> void query(mc::Ctx &c, Handle<T> &h, const Pts &q, const Pts &x, const Pts &s, const KCfg &g) {
    int n = q.size(), m = q[0].size();
    Res<T> r = results(c, h, x, s, g);
    auto Q = rowsof<T>(q, g.o, g.pad);
    std::vector<da_int> lab(n + 1, -77);
    Mat<T> D(n, g.k, g.o, g.pad ? 0 : 1, (T)-555);
    c.op();
    Threads t(g.thr);
    da_status st = da_kmeans_predict<T>(h, n, m, Q.p(), Q.ld, lab.data());
    if (st) c.fail("kmeans:predict", "predict gave status %d; %s", (int)st, say(x, s, g).c_str());
    st = da_kmeans_transform<T>(h, n, m, Q.p(), Q.ld, D.p(), D.ld);
    if (st) c.fail("kmeans:transform", "transform gave status %d; %s", (int)st, say(x, s, g).c_str());
    if (lab[n] != -77) c.fail("kmeans:predict-overrun", "predict wrote past its output; %s", say(x, s, g).c_str());
    if (!D.pad_ok()) c.fail("kmeans:transform-pad", "transform wrote into the padding; %s", say(x, s, g).c_str());
    for (int i = 0; i < n; i++) {
        auto p = wide(q[i]);
        if (g.cosine && dot(p, p) == 0) continue;
        int l = lab[i];
        if (l < 0 || l >= g.k) c.fail("kmeans:predict-range", "predicted label %d; %s", l, say(x, s, g).c_str());
        L mine = dist<T>(g, p, r.C[l]), e = dtol<T>(g, p, r.C[l]);
        for (int j = 0; j < g.k; j++) {
            L d = dist<T>(g, p, r.C[j]), ej = dtol<T>(g, p, r.C[j]), got = D(i, j), v = g.cosine ? d : sqrtl(d);
            L tt = g.cosine ? ej : (v > 0 ? std::min(ej / v, sqrtl(ej)) : sqrtl(ej)) + 8 * (L)eps<T>() * v;
            if (d < mine - e - ej) c.fail("kmeans:predict-nearest", "query %s gets label %d at %.9Lg but centre %d is at %.9Lg; %s", str(q[i]).c_str(), l, mine, j, d, say(x, s, g).c_str());
            if (!(fabsl(got - v) <= tt)) c.fail("kmeans:transform-value", "distance of %s to centre %d is %.9Lg, transform gives %.9Lg; %s", str(q[i]).c_str(), j, v, got, say(x, s, g).c_str());
        }
    }
    c.out(hvec(lab));
}
template <class T> void one(mc::Ctx &c, const Pts &x, const Pts &s, const KCfg &g, const Pts *q = nullptr) {
    Handle<T> h(da_handle_kmeans);
    auto X = rowsof<T>(x, g.o, g.pad), S = rowsof<T>(s.empty() ? x : s, g.o, g.pad);
    da_status st = train(c, h, X, S, g);
    judge(c, h, st, x, s, g);
    if (st == da_status_invalid_option) return;
    if (q && (st == da_status_success || st == da_status_maxit)) query(c, h, *q, x, s, g);
}
static void layout(mc::Ctx &c, KCfg &g) { int k = c.choose(2, "layout"); g.o = k ? row_major : column_major; g.pad = k ? 0 : 1; }
void mc::register_all() {
    // all sequences of points on a line and all starting centres drawn from it
    mc::add("line", 2, [](mc::Ctx &c) {
        int W = 4, n = mc::lite() ? 3 : 2 + c.choose(mc::thorough() ? 5 : 3);
        KCfg g;
        g.k = 1 + c.choose(std::min(n, 3));
        Pts x, s;
        for (int i = 0; i < n; i++) { int v = c.choose(W); x.push_back({(double)(v == 3 ? 5 : v)}); }
        for (int i = 0; i < g.k; i++) { int v = c.choose(W); s.push_back({(double)(v == 3 ? 5 : v)}); }
        g.alg = c.choose(4); g.empty = g.alg == 3 ? 1 : c.choose(3);
        if (n <= 3) layout(c, g);
        one<double>(c, x, s, g);
    });
    // points of the plane, both metrics, both precisions, early stopping, lower precision first, queries afterwards
    mc::add("plane", 2, [](mc::Ctx &c) {
        static const double V[5][2] = {{1, 0}, {0, 1}, {2, 2}, {-1, 3}, {4, 1}};
        int n = mc::lite() ? 3 : 3 + c.choose(mc::thorough() ? 3 : 2);
        KCfg g;
        g.k = 1 + c.choose(3);
        if (n == 4 && !mc::thorough() && g.k == 1) c.prune(); // one cluster needs no four points
        Pts x, s;
        for (int i = 0; i < n; i++) { int k = c.choose(5); x.push_back({V[k][0], V[k][1]}); }
        int sh = c.choose(mc::thorough() ? 5 : mc::lite() ? 1 : 3);
        for (int i = 0; i < g.k; i++) { int k = (sh + i * (1 + sh % 2)) % 5; s.push_back({V[k][0], V[k][1]}); }
        g.alg = c.choose(4); g.empty = g.alg == 3 ? 1 : c.choose(3);
        g.cosine = c.choose(g.alg == 3 ? 1 : 2);
        int var = c.choose(4);
        if (var == 1) g.maxit = 1;
        if (var == 2) g.tol = 0.3;
        if (var == 3) g.lp = true;
        layout(c, g);
        static const Pts q{{0, 0}, {1, 2}, {3, 1}, {-1, -1}};
        if (c.choose(2)) one<float>(c, x, s, g, &q); else one<double>(c, x, s, g, &q);
    });
    // starting centres chosen by the library: consistent, reproducible, more runs never worse, other threads alike
    mc::add("seeded", 2, [](mc::Ctx &c) {
        static const std::vector<Pts> D = {{{0}, {1}, {5}, {6}, {9}}, {{2}, {2}, {2}, {2}}, {{0, 1}, {1, 0}, {4, 4}, {5, 4}, {0, 9}, {1, 9}, {7, 7}}, {{0, 0}, {0, 0}, {3, 1}, {3, 1}, {3, 2}},
                                           {{1, 2, 3}, {3, 2, 1}, {-1, 0, 1}, {8, 0, 0}, {8, 1, 0}, {0, 8, 0}}};
        KCfg g;
        int di = c.choose(5);
        const Pts &x = D[di];
        g.k = 1 + c.choose(4); g.init = 1 + c.choose(4); g.alg = c.choose(4); g.empty = g.alg == 3 ? 1 : c.choose(3); g.seed = c.choose(mc::lite() ? 2 : 6); g.ninit = 1 + 3 * c.choose(2);
        g.cosine = c.choose(g.alg == 3 ? 1 : 2); g.thr = c.choose(2);
        if (g.cosine && (di == 3 || di == 0)) c.prune(); // zero vectors
        layout(c, g);
        auto X = rowsof<double>(x, g.o, g.pad);
        Handle<double> h(da_handle_kmeans), h2(da_handle_kmeans);
        if (g.init == 4) { h.must(c, "afk-mc2 samples", 3); h2.must(c, "afk-mc2 samples", 3); }
        da_status st = train(c, h, X, X, g);
        judge(c, h, st, x, {}, g);
        if (st != da_status_success && st != da_status_maxit) return;
        auto r = results(c, h, x, {}, g);
        KCfg g2 = g;
        da_status s2 = train(c, h2, X, X, g2);
        auto r2 = results(c, h2, x, {}, g);
        if (s2 != st || r.lab != r2.lab || hvec(r.cen) != hvec(r2.cen) || !same_bits(r.rinfo[4], r2.rinfo[4])) c.fail("kmeans:repeat", "a second handle with the same seed differs; %s", say(x, {}, g).c_str());
        s2 = da_kmeans_compute<double>(h);
        r2 = results(c, h, x, {}, g);
        if (s2 != st || r.lab != r2.lab || hvec(r.cen) != hvec(r2.cen) || !same_bits(r.rinfo[4], r2.rinfo[4])) c.fail("kmeans:recompute", "computing again with the same seed differs: status %d/%d labels %s/%s inertia %g/%g; %s", (int)st, (int)s2, str(r.lab).c_str(), str(r2.lab).c_str(), r.rinfo[4], r2.rinfo[4], say(x, {}, g).c_str());
        if (g.ninit > 1 && g.empty != 1) {
            g2.ninit = 1;
            s2 = train(c, h2, X, X, g2);
            r2 = results(c, h2, x, {}, g2);
            if ((double)r.rinfo[4] > r2.rinfo[4] * (1 + 1e-12) + 1e-12) c.fail("kmeans:bestof", "best of %d runs has inertia %g, the first alone %g; %s", g.ninit, r.rinfo[4], r2.rinfo[4], say(x, {}, g).c_str());
        }
    });
    // shapes around the vector kernels and blocks
    mc::add("shapes", 1, [](mc::Ctx &c) {
        KCfg g;
        std::vector<int> ks = mc::lite() ? std::vector<int>{1, 5, 17} : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 19, 20, 24, 31, 32, 33, 40, 65};
        std::vector<int> ns = mc::lite() ? std::vector<int>{70} : std::vector<int>{70, 128, 129, 257, 513};
        g.k = c.pick(ks); int n = c.pick(ns), m = c.pick(mc::lite() ? std::vector<int>{1, 9} : std::vector<int>{1, 2, 3, 4, 5, 8, 9, 16, 17});
        g.alg = c.choose(4); g.thr = n > 250 ? c.pick(std::vector<int>{0, 1, 3}) : 0; g.lp = c.choose(n < 200 && g.alg < 3 ? 2 : 1);
        g.cosine = c.choose(g.alg == 3 ? 1 : 2);
        if (!mc::thorough() && n > 250 && m % 8 != 1) c.prune();
        layout(c, g);
        g.maxit = n > 250 ? 5 : 100;
        Pts x, s;
        for (int i = 0; i < n; i++) { std::vector<double> p; for (int j = 0; j < m; j++) p.push_back((double)((i * 37 + j * 11 + i * j * 5) % 23 - 11 + (j == 0 && i % 3 == 0 ? 40 : 0)) + (j == 0) * 0.5); x.push_back(p); }
        for (int i = 0; i < g.k; i++) s.push_back(x[(i * 3 + 1) % n]);
        Pts q(x.begin(), x.begin() + std::min(n, 67));
        if (c.choose(2)) one<float>(c, x, s, g, &q); else one<double>(c, x, s, g, &q);
    });
    // as many clusters as a block holds: Lloyd changes its storage
    mc::add("many clusters", 1, [](mc::Ctx &c) {
        KCfg g;
        g.k = 255 + c.choose(3); g.alg = c.choose(mc::lite() ? 1 : 3); layout(c, g); g.maxit = 3;
        if (g.alg == 2) g.maxit = 1;
        Pts x, s;
        for (int i = 0; i < 300; i++) x.push_back({(double)(i * 7 % 300), (double)(i % 5)});
        for (int i = 0; i < g.k; i++) s.push_back(x[i]);
        one<double>(c, x, s, g);
    });
    // histories on one handle: answers do not depend on what came before; starting centres of another shape are refused
    mc::add("history", 2, [](mc::Ctx &c) {
        static const std::vector<Pts> D = {{{0}, {1}, {5}, {6}}, {{0, 1}, {1, 0}, {4, 4}, {5, 4}, {0, 9}}, {{3, 3, 1}, {1, 1, 1}, {0, 2, 0}}, {{1e200}, {-1e200}, {3e200}, {-3e200}}}; // the last overflows the inertia
        Handle<double> h(da_handle_kmeans);
        double ri[6]; da_int d = 6, dm = 6; std::vector<da_int> l(8);
        if (da_kmeans_compute<double>(h) != da_status_no_data) c.fail("kmeans:nodata", "compute without data");
        if (da_kmeans_set_init_centres<double>(h, ri, 1) != da_status_no_data) c.fail("kmeans:nodata", "centres without data");
        if (getres<double>(h, da_rinfo, &d, ri) != da_status_no_data) c.fail("kmeans:nodata", "results before compute");
        std::vector<Mat<double>> keep; keep.reserve(16); // the library keeps pointers
        int n_ops = mc::thorough() ? 3 : 2;
        for (int step = 0; step < n_ops; step++) {
            KCfg g;
            bool last = step == n_ops - 1;
            int dk = mc::lite() ? (last ? 1 + 2 * c.choose(2, "data") : 0) : c.choose(last ? 4 : 3, "data");
            const Pts &x = D[dk];
            g.k = mc::lite() ? 1 + 2 * c.choose(2) : 1 + c.choose(3);
            g.alg = c.choose(4); g.init = c.choose(mc::lite() && !last ? 1 : 2); g.ninit = 1 + c.choose(last ? 1 : 2) * 2; g.empty = g.alg == 3 || (last && mc::lite()) ? 1 : 2 * c.choose(2);
            layout(c, g);
            Pts s(x.begin(), x.begin() + g.k);
            keep.push_back(rowsof<double>(x, g.o, g.pad)); auto &X = keep.back();
            keep.push_back(rowsof<double>(s, g.o, g.pad)); auto &S = keep.back();
            da_status st = train(c, h, X, S, g);
            if (dk < 3) judge(c, h, st, x, g.init ? Pts{} : s, g);
            bool ok = st == da_status_success || st == da_status_maxit || (st == da_status_incompatible_options && !(g.alg == 3 && (g.k == 1 || g.k >= (int)x.size())));
            if (!ok) continue;
            auto r = results(c, h, x, {}, g);
            Handle<double> f(da_handle_kmeans);
            da_status sf = train(c, f, X, S, g);
            auto rf = results(c, f, x, {}, g);
            if (sf != st || r.lab != rf.lab || hvec(r.cen) != hvec(rf.cen)) c.fail("kmeans:fresh", "a used handle answers unlike a fresh one; %s", say(x, {}, g).c_str());
            if (dk == 3) continue;
            query(c, h, x, x, {}, g);
            switch (c.choose(last && !mc::thorough() ? 1 : 5)) {
            case 0: break;
            case 1: { // a new option or new starting centres must not change what the stored model is
                int k2 = g.k == 1 ? 3 : 1;
                h.must(c, "n_clusters", k2);
                Mat<double> B = rowsof<double>(Pts(x.begin(), x.begin() + k2), g.o, 0);
                da_kmeans_set_init_centres<double>(h, B.p(), B.ld);
                std::vector<double> cen((size_t)g.k * X.m, -9);
                d = cen.size();
                da_status q = getres<double>(h, da_kmeans_cluster_centres, &d, cen.data());
                if (q != da_status_no_data && (q || hvec(cen) != hvec(r.cen))) c.fail("kmeans:stale-centres", "centres of the trained model changed with later settings: status %d; %s", (int)q, say(x, {}, g).c_str());
                if (!q) query(c, h, x, x, {}, g);
                break;
            }
            case 2: { // the summary survives a change of option, or is gone with the results
                h.must(c, "max_iter", 7);
                d = 6;
                da_status q = getres<double>(h, da_rinfo, &d, ri);
                if (q != da_status_no_data && (q || !same_bits(ri[4], r.rinfo[4]) || !same_bits(ri[3], r.rinfo[3]))) c.fail("kmeans:stale-rinfo", "inertia %g iterations %g after setting an option, %g and %g before; %s", ri[4], ri[3], r.rinfo[4], r.rinfo[3], say(x, {}, g).c_str());
                break;
            }
            case 3: { // more clusters than starting centres were given for
                if (g.init || g.k == 3) break;
                if (h.set("n_clusters", g.k + 1)) break;
                da_status q = da_kmeans_compute<double>(h);
                if (!q || q == da_status_maxit) c.fail("kmeans:stale-start", "computed %d clusters from %d starting centres; %s", g.k + 1, g.k, say(x, {}, g).c_str());
                break;
            }
            default: { // data of another width with the old starting centres
                if (g.init) break;
                const Pts &y = D[(dk + 1) % 3];
                keep.push_back(rowsof<double>(y, g.o, 0));
                if (da_kmeans_set_data<double>(h, keep.back().n, keep.back().m, keep.back().p(), keep.back().ld)) break;
                da_status q = da_kmeans_compute<double>(h);
                if (!q || q == da_status_maxit) c.fail("kmeans:stale-start", "computed data of %d columns from starting centres of %d; %s", keep.back().m, X.m, say(x, {}, g).c_str());
            }
            }
        }
        (void)dm; (void)l;
    });
}
