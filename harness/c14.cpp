// C14: DBSCAN labels are exactly the density-connected components. Every small point set, radius, sample threshold,
// metric, search algorithm, layout and thread setting is clustered by the library and by the definition.
#include "nn.hpp"
#include <omp.h>
struct DM { const char *name; Met m; };
static const DM DMETS[] = {
    {"euclidean", {"euclidean", 0, 2, true, true}}, {"manhattan", {"manhattan", 2, 1, true, true}}, {"minkowski", {"minkowski", 4, 2, true, true}},
    {"sqeuclidean", {"sqeuclidean", 1, 2, false, true}}, {"l2", {"l2", 0, 2, true, true}}, {"l1", {"l1", 2, 1, true, true}}, {"cityblock", {"cityblock", 2, 1, true, true}},
    {"minkowski", {"minkowski", 4, 3, true, false}}, {"minkowski", {"minkowski", 4, 1, true, false}}, {"cosine", {"cosine", 3, 2, false, false}},
    {"minkowski", {"minkowski", 4, 0.5, false, false}}, {"minkowski", {"minkowski", 4, 1.5, true, false}}};
static const int NDM = sizeof DMETS / sizeof *DMETS;
static const Alg DALG[] = {{"brute", 30}, {"kd tree", 1}, {"ball tree", 1}, {"auto", 2}, {"kd tree", 3}, {"ball tree", 2}, {"auto", 30}};
// threads: 0 one thread; 1 two configured but none granted (as inside a caller's own parallel region); n>1 n real threads
struct DCfg { int met, alg; double eps; int ms; da_order o; int pad, thr; };
struct Threads {
    Threads(int t) { if (t) omp_set_num_threads(t == 1 ? 2 : t); if (t == 1) omp_set_max_active_levels(0); }
    ~Threads() { omp_set_max_active_levels(1); omp_set_num_threads(1); }
};
struct Ref { std::vector<int> lab, core; std::vector<std::vector<char>> adj; int ncl = 0, nc = 0; };
static Ref reference(const Pts &x, const DCfg &g, double tol, bool &tie) {
    int n = x.size();
    Ref r; r.lab.assign(n, -1); r.core.assign(n, 0); r.adj.assign(n, std::vector<char>(n, 0));
    const Met &m = DMETS[g.met].m;
    tie = false;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
        double d = i == j ? 0 : refdist(m, x[i], x[j]);
        if (i != j && std::fabs(d - g.eps) <= tol) tie = true;
        r.adj[i][j] = r.adj[j][i] = d <= g.eps;
    }
    for (int i = 0; i < n; i++) {
        int s = 0;
        for (int j = 0; j < n; j++) s += i == j || r.adj[i][j];
        if (s >= g.ms) r.core[i] = 1, r.nc++;
    }
    std::vector<int> st;
    for (int i = 0; i < n; i++) if (r.core[i] && r.lab[i] < 0) {
        r.lab[i] = r.ncl; st.assign(1, i);
        while (st.size()) {
            int a = st.back(); st.pop_back();
            for (int b = 0; b < n; b++) if (r.core[b] && r.lab[b] < 0 && r.adj[a][b]) r.lab[b] = r.ncl, st.push_back(b);
        }
        r.ncl++;
    }
    return r;
}
static std::string say(const Pts &x, const DCfg &g) {
    char b[200];
    snprintf(b, sizeof b, "%s p=%g eps=%g min samples %d, %s leaf %d, %s pad %d, threads mode %d, ", DMETS[g.met].name, DMETS[g.met].m.p, g.eps, g.ms, DALG[g.alg].name,
             DALG[g.alg].leaf, ordn(g.o), g.pad, g.thr);
    return b + (x.size() <= 24 ? "data " + pts(x) : std::to_string(x.size()) + " points");
}
template <class T> struct DRun {
    Handle<T> h{da_handle_dbscan};
    bool late = false; // options are set after the data
    da_status go(mc::Ctx &c, const Pts &x, const DCfg &g) {
        h.order(c, g.o);
        auto X = rowsof<T>(x, g.o, g.pad);
        da_status st = late ? da_dbscan_set_data<T>(h, X.n, X.m, X.p(), X.ld) : da_status_success;
        h.must(c, "algorithm", DALG[g.alg].name);
        h.must(c, "leaf size", DALG[g.alg].leaf);
        h.must(c, "metric", DMETS[g.met].name);
        h.must(c, "min samples", g.ms);
        h.mustr(c, "eps", g.eps);
        h.mustr(c, "power", DMETS[g.met].m.p);
        if (!late) st = da_dbscan_set_data<T>(h, X.n, X.m, X.p(), X.ld);
        if (st) c.fail("dbscan:set_data", "set_data gave status %d; %s", (int)st, say(x, g).c_str());
        c.op();
        Threads t(g.thr);
        return da_dbscan_compute<T>(h);
    }
    void check(mc::Ctx &c, const Pts &x, const DCfg &g) {
        const Met &m = DMETS[g.met].m;
        int n = x.size();
        bool tree = DALG[g.alg].name[0] == 'k' || DALG[g.alg].name[1] == 'a', tie;
        bool ball = DALG[g.alg].name[1] == 'a';
        double tol = (m.exact ? 0 : 1e3 * eps<T>() * (1 + g.eps));
        if (m.kind == 0 && g.eps != std::floor(g.eps)) tol = 1e-6;
        if (ball) tol = std::max(tol, 1e3 * eps<T>() * (1 + g.eps));
        Ref r = reference(x, g, tol, tie);
        // on a tie decided by rounding both answers are right; the exact metrics have none except a ball's own radius
        if (tie && (tol > 0)) { c.prune(); return; }
        da_status st = go(c, x, g);
        if (tree && !m.tree) {
            if (st != da_status_incompatible_options) c.fail("dbscan:incompatible", "status %d where the tree does not offer this metric; %s", (int)st, say(x, g).c_str());
            da_int one; da_int d = 1;
            if (!da_handle_get_result(h, da_dbscan_n_clusters, &d, &one)) c.fail("dbscan:refused-result", "results offered after a refused computation; %s", say(x, g).c_str());
            return;
        }
        if (st) c.fail("dbscan:status", "compute gave status %d; %s", (int)st, say(x, g).c_str());
        std::vector<da_int> lab(n, -77);
        da_int d = n, ncl = -7, nc = -7, one = 1;
        if (da_handle_get_result(h, da_dbscan_labels, &d, lab.data())) c.fail("dbscan:labels", "no labels; %s", say(x, g).c_str());
        if (da_handle_get_result(h, da_dbscan_n_clusters, &one, &ncl) || da_handle_get_result(h, da_dbscan_n_core_samples, &one, &nc)) c.fail("dbscan:counts", "no counts");
        if (nc != r.nc) c.fail("dbscan:ncore", "%d core samples reported, %d by the definition; %s", (int)nc, r.nc, say(x, g).c_str());
        std::vector<da_int> ci(std::max<int>(nc, 1), -5);
        if (nc > 0) {
            d = nc;
            if (da_handle_get_result(h, da_dbscan_core_sample_indices, &d, ci.data())) c.fail("dbscan:core", "no core indices; %s", say(x, g).c_str());
            std::sort(ci.begin(), ci.end());
            int k = 0;
            for (int i = 0; i < n; i++) if (r.core[i] && ci[k++] != i) c.fail("dbscan:core", "core indices %s do not hold core point %d; %s", str(ci).c_str(), i, say(x, g).c_str());
        }
        if (ncl != r.ncl) c.fail("dbscan:ncl", "%d clusters reported, %d by the definition, labels %s; %s", (int)ncl, r.ncl, n > 40 ? "..." : str(lab).c_str(), say(x, g).c_str());
        std::vector<int> map(r.ncl, -1), used(r.ncl, 0); // reference cluster -> label
        for (int i = 0; i < n; i++) if (r.core[i]) {
            int &q = map[r.lab[i]];
            if (lab[i] < 0 || lab[i] >= r.ncl) c.fail("dbscan:corelabel", "core point %d has label %d of %d clusters; %s", i, (int)lab[i], r.ncl, say(x, g).c_str());
            if (q < 0) {
                if (used[lab[i]]) c.fail("dbscan:merged", "core point %d shares label %d with a cluster it is not density-connected to; labels %s; %s", i, (int)lab[i], n > 40 ? "..." : str(lab).c_str(), say(x, g).c_str());
                q = lab[i]; used[q] = 1;
            } else if (q != lab[i]) c.fail("dbscan:split", "core point %d has label %d, a density-connected one %d; labels %s; %s", i, (int)lab[i], q, n > 40 ? "..." : str(lab).c_str(), say(x, g).c_str());
        }
        for (int i = 0; i < n; i++) if (!r.core[i]) {
            bool ok = false, any = false;
            for (int j = 0; j < n; j++) if (r.core[j] && r.adj[i][j]) any = true, ok |= lab[j] == lab[i];
            if (any ? !ok : lab[i] != -1) c.fail("dbscan:border", "point %d (%s) has label %d; labels %s; %s", i, any ? "border" : "noise", (int)lab[i], n > 40 ? "..." : str(lab).c_str(), say(x, g).c_str());
        }
        T ri[9]; d = 9;
        if (getres<T>(h, da_rinfo, &d, ri)) c.fail("dbscan:rinfo", "no rinfo");
        double want[9] = {(double)n, (double)x[0].size(), (double)((g.o == column_major ? n : (int)x[0].size()) + g.pad), (double)(T)g.eps, (double)g.ms, (double)DALG[g.alg].leaf, (double)(T)m.p, (double)r.nc, (double)r.ncl};
        for (int i = 0; i < 9; i++) if ((double)ri[i] != want[i] && i != 2) c.fail("dbscan:rinfo", "rinfo[%d] is %g instead of %g; %s", i, (double)ri[i], want[i], say(x, g).c_str());
        c.out(hvec(lab));
    }
};
template <class T> void one(mc::Ctx &c, const Pts &x, const DCfg &g) { DRun<T> r; r.check(c, x, g); }
static void layout(mc::Ctx &c, DCfg &g) { int k = c.choose(2, "layout"); g.o = k ? row_major : column_major; g.pad = k ? 0 : 1; }
void mc::register_all() {
    // all sequences of points on a line: chains, duplicates, borders between clusters, in every arrival order
    mc::add("line", 2, [](mc::Ctx &c) {
        int W = 5, N = mc::lite() ? 3 : (mc::thorough() ? 6 : 5);
        int n = 1 + c.choose(N);
        Pts x;
        for (int i = 0; i < n; i++) x.push_back({(double)c.choose(W)});
        DCfg g{};
        g.eps = c.pick(std::vector<double>{1, 2, 0}); g.ms = 1 + c.choose(4); g.alg = c.choose(mc::lite() ? 3 : 4);
        g.thr = c.choose(2); g.o = column_major; g.met = c.choose(2);
        if (g.met && g.eps == 0) c.prune();
        one<double>(c, x, g);
    });
    // seven points over a wider line: two clusters around shared border points; six arrival orders each
    mc::add("border", 2, [](mc::Ctx &c) {
        int n = mc::thorough() ? 8 : 7, W = mc::lite() ? 4 : 8;
        std::vector<double> s;
        double last = 0;
        for (int i = 0; i < n; i++) { int d = c.choose(i ? 3 : 1); last += d; if (last > W) c.prune(); s.push_back(last); }
        int perm = c.choose(8), ms = 3 + c.choose(3);
        std::vector<int> id(n);
        for (int i = 0; i < n; i++) switch (perm) {
            case 0: id[i] = i; break;
            case 1: id[i] = n - 1 - i; break;
            case 2: id[i] = (i * 3) % n; break;
            case 3: id[i] = i % 2 ? n - 1 - i / 2 : i / 2; break;
            case 4: id[i] = i < n / 2 ? n / 2 - i - 1 : i; break;
            case 5: id[i] = (i * 3 + 4) % n; break;
            case 6: id[i] = i % 2 ? i / 2 : n - 1 - i / 2; break;
            default: id[i] = (i + n / 2) % n;
        }
        Pts x;
        for (int i = 0; i < n; i++) x.push_back({s[id[i] % n]});
        DCfg g{};
        g.eps = 2; g.ms = ms; g.alg = c.choose(2); g.thr = c.choose(2); g.o = row_major;
        one<float>(c, x, g);
    });
    // all point sequences on a small plane grid with every metric and algorithm
    mc::add("plane", 2, [](mc::Ctx &c) {
        int n = mc::lite() ? 2 : 2 + c.choose(mc::thorough() ? 4 : 3);
        Pts x;
        static const double V[6][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {3, 1}, {2, -1}};
        for (int i = 0; i < n; i++) { int k = c.choose(6); x.push_back({V[k][0], V[k][1]}); }
        DCfg g{};
        g.met = c.choose(NDM); g.alg = c.choose(n < 4 ? 7 : 4);
        g.eps = c.pick(std::vector<double>{1, 1.5, 2, 0.25}); g.ms = 1 + c.choose(3); 
        g.thr = n == 3 ? c.choose(2) : 0;
        layout(c, g);
        if (c.choose(n < 4 ? 2 : 1)) one<float>(c, x, g); else one<double>(c, x, g);
    });
    // shapes around the search's block size, several real threads
    mc::add("blocks", 1, [](mc::Ctx &c) {
        DCfg g{};
        std::vector<int> ns = mc::lite() ? std::vector<int>{257} : (mc::thorough() ? std::vector<int>{255, 256, 257, 511, 512, 513, 769, 1025} : std::vector<int>{257, 513});
        int n = c.pick(ns), pat = c.choose(4);
        g.thr = mc::lite() ? 1 : c.pick(std::vector<int>{0, 1, 4}); g.alg = c.choose(3); g.met = c.choose(4); g.ms = c.pick(std::vector<int>{2, 9}); g.eps = c.pick(std::vector<double>{1, 3});
        layout(c, g);
        Pts x;
        for (int i = 0; i < n; i++) {
            int a = (int)((long)i * 7919 % n);
            switch (pat) {
            case 0: x.push_back({(double)(a + a / 50 * 5), (double)(a % 2)}); break;      // chains of 50 with gaps
            case 1: x.push_back({(double)(a % 23 * 2), (double)(a / 23 * 2)}); break;    // sparse lattice
            case 2: x.push_back({(double)(i + i / 31 * 3), 0.0}); break;                 // runs in order
            default: x.push_back({(double)(a % 40 * (a % 3)), (double)(a / 40)}); break; // uneven density
            }
        }
        if (g.met == 3 && g.eps == 3) g.eps = 4;
        one<double>(c, x, g);
    });
    // one handle over several computations: later answers do not depend on earlier ones
    mc::add("reuse", 1, [](mc::Ctx &c) {
        static const std::vector<Pts> D = {{{0}, {1}, {2}, {9}}, {{0}, {0}, {5}, {5}, {5}, {7}}, {{3}}, {{0, 1}, {0, 2}, {4, 4}}};
        DRun<double> r;
        da_int one = 1, v = 0;
        if (da_dbscan_compute<double>(r.h) != da_status_no_data) c.fail("dbscan:nodata", "compute without data was accepted");
        if (da_handle_get_result(r.h, da_dbscan_n_clusters, &one, &v) != da_status_no_data) c.fail("dbscan:nodata", "results before compute");
        int L = mc::thorough() ? 3 : 2;
        for (int s = 0; s < L; s++) {
            DCfg g{};
            const Pts &x = D[c.choose(mc::lite() ? 3 : 4)];
            g.alg = mc::lite() ? s % 2 * 3 + c.choose(1) : c.choose(4); g.met = c.pick(mc::lite() ? std::vector<int>{0, 9} : std::vector<int>{0, 3, 9}); g.eps = 1; g.ms = mc::thorough() ? 1 + c.choose(3) : 1 + 2 * c.choose(2); g.thr = c.choose(2);
            if (g.met == 9) g.eps = 0.25;
            layout(c, g); r.late = c.choose(2);
            r.check(c, x, g);
            bool tree = g.alg == 1 || g.alg == 2;
            if (tree && g.met >= 3) continue;
            da_int d = 0; std::vector<da_int> l(1);
            if (da_handle_get_result(r.h, da_dbscan_labels, &d, l.data()) != da_status_invalid_array_dimension || d != (da_int)x.size()) c.fail("dbscan:small", "short label array: size %d", (int)d);
            double ri[9]; da_int k = 8;
            if (getres<double>(r.h, da_rinfo, &k, ri) != da_status_invalid_array_dimension || k != 9) c.fail("dbscan:small", "short rinfo array: size %d", (int)k);
            // changing an option or the data takes the results away or keeps them right
            if (c.choose(2)) {
                r.h.must(c, "min samples", g.ms + 3);
                d = x.size(); l.assign(d, -9);
                da_status st = da_handle_get_result(r.h, da_dbscan_labels, &d, l.data());
                if (st && st != da_status_no_data) c.fail("dbscan:stale", "labels after an option change: status %d", (int)st);
                g.ms += 3;
                r.check(c, x, g);
            }
        }
    });
}
