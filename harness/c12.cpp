// C12: radius neighbours against the definition.
#include "nn.hpp"
template <class T> void check_radius(mc::Ctx &c, Handle<T> &h, const Cfg &g, const Pts &x, const Pts &q, double r, int mode, double eff, double slack = 1) {
    // mode 0 indices only, 1 distances, 2 distances sorted
    const Met &m = METS[g.met];
    int n = x.size(), nq = q.size();
    auto Q = rowsof<T>(q, g.o, g.pad);
    c.op();
    da_status st = da_nn_radius_neighbors<T>(h, nq, q[0].size(), Q.p(), Q.ld, (T)r, mode > 0, mode > 1);
    if (st) c.fail("rnn:status", "status %d for radius %g; %s", (int)st, r, desc(g, x).c_str());
    auto cnt = get<da_int>(c, h, da_nn_radius_neighbors_count, nq + 1, "count");
    auto off = get<da_int>(c, h, da_nn_radius_neighbors_offsets, nq + 1, "offsets");
    long tot = 0;
    for (int i = 0; i < nq; i++) {
        if (cnt[i] < 0 || cnt[i] > n) c.fail("rnn:count", "count[%d]=%d; r=%g mode %d %s", i, (int)cnt[i], r, mode, desc(g, x).c_str());
        if (off[i] != (cnt[i] ? tot : -1)) c.fail("rnn:offset", "offset[%d]=%d, expected %ld; r=%g mode %d %s", i, (int)off[i], cnt[i] ? tot : -1L, r, mode, desc(g, x).c_str());
        tot += cnt[i];
    }
    if (cnt[nq] != tot) c.fail("rnn:total", "total %d but the counts add to %ld; r=%g %s", (int)cnt[nq], tot, r, desc(g, x).c_str());
    std::vector<da_int> ind; std::vector<T> ds;
    if (tot) {
        ind = get<da_int>(c, h, da_nn_radius_neighbors_indices, tot, "indices");
        if (mode) ds = get<T>(c, h, da_nn_radius_neighbors_distances, tot, "distances");
    }
    double tol = tolof<T>(m) * slack;
    long at = 0;
    for (int i = 0; i < nq; i++) {
        std::vector<char> seen(n, 0);
        double prev = -1;
        std::vector<da_int> one(std::max(1, (int)cnt[i])); std::vector<T> oned(std::max(1, (int)cnt[i]));
        if (cnt[i]) {
            da_int dim = cnt[i];
            one[0] = i; oned[0] = i;
            da_status a = da_handle_get_result_int(h, da_nn_radius_neighbors_indices_index, &dim, one.data());
            da_status b = mode ? getres<T>(h, da_nn_radius_neighbors_distances_index, &dim, oned.data()) : da_status_success;
            if (a || b) c.fail("rnn:byindex-status", "reading query %d gave %d/%d; %s", i, (int)a, (int)b, desc(g, x).c_str());
        }
        for (int k = 0; k < cnt[i]; k++, at++) {
            int id = ind[at];
            if (id < 0 || id >= n || seen[id]) c.fail("rnn:index", "query %s: index %d %s; r=%g mode %d %s", str(q[i]).c_str(), id, id >= 0 && id < n ? "twice" : "out of range", r, mode, desc(g, x).c_str());
            seen[id] = 1;
            double d = refdist(m, x[id], q[i]);
            if (one[k] != id) c.fail("rnn:byindex", "per-query indices differ from the flat list: %d and %d; %s", (int)one[k], id, desc(g, x).c_str());
            if (mode) {
                double s = ds[at];
                if (!(std::fabs(s - d) <= tol * std::max(1.0, d)) &&
                    !(m.kind == 0 && slack > 1 && std::fabs(s * s - d * d) <= tol * std::max(1.0, d * d) * 10))
                    c.fail("rnn:distance", "query %s point %d: distance %.9g, true %.9g; r=%g mode %d %s", str(q[i]).c_str(), id, s, d, r, mode, desc(g, x).c_str());
                if (!same_bits(oned[k], ds[at])) c.fail("rnn:byindex-d", "per-query distances differ from the flat list; %s", desc(g, x).c_str());
                if (mode == 2 && s < prev) c.fail("rnn:sort", "distances not ascending for query %s: %g then %g; r=%g %s", str(q[i]).c_str(), prev, s, r, desc(g, x).c_str());
                prev = s;
            }
        }
        for (int j = 0; j < n; j++) {
            double d = refdist(m, x[j], q[i]);
            // a ball's centre and radius are rounded: at the boundary the ball tree may decide either way,
            // unless they come out exact (scaled grids on a line, or the 1-norm)
            bool ball = ALGS[g.alg].name[0] == 'b' && ALGS[g.alg].name[1] == 'a' && (n > 6 || !(x[0].size() == 1 || m.kind == 2));
            if (!m.exact || slack > 1 || ball) { if (std::fabs(d - eff) <= tol * std::max(1.0, std::max(d, eff))) continue; }
            if (m.kind == 0 && slack > 1 && std::fabs(d * d - eff * eff) <= tol * 1e4) continue;
            if ((d <= eff) != !!seen[j])
                c.fail(seen[j] ? "rnn:extra" : "rnn:missing", "query %s: point %d at distance %.9g %s for radius %.9g; mode %d %s", str(q[i]).c_str(), j, d,
                       seen[j] ? "reported" : "missing", eff, mode, desc(g, x).c_str());
        }
    }
    c.out(hvec(cnt)); c.out(hvec(ind));
}
static const double RS[] = {0, 0.5, 1, 2, 3, 5, 25, 100}, SC = 60; // 60: means of up to 6 points are integers
static Pts scaled(Pts p) { for (auto &r : p) for (auto &v : r) v *= SC; return p; }
template <class T> void grid(mc::Ctx &c, const Pts &G0, const Pts &Q0, int n, int nmet, int nalg, int nr) {
    Pts G = scaled(G0), Q = scaled(Q0);
    Cfg g = choose_cfg(c, nmet, nalg);
    if (METS[g.met].kind == 5) c.prune();
    Pts x = choose_points(c, G, n);
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    h.mustr(c, "radius", 2 * SC);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    for (int i = 0; i < nr; i++) { double r = METS[g.met].kind == 1 ? RS[i] * SC * SC : METS[g.met].kind == 3 ? RS[i] / 3 : RS[i] * SC; check_radius(c, h, g, x, Q, r, i % 3, r); }
    check_radius(c, h, g, x, Q, -1, 2, 2 * SC);
    check_radius(c, h, g, x, {Q[0]}, 2 * SC, 1, 2 * SC);
    auto Z = rowsof<T>(Q, g.o, g.pad);
    if (!da_nn_radius_neighbors<T>(h, Q.size(), Q[0].size(), Z.p(), Z.ld, (T)1, 0, 1)) c.fail("rnn:sort-nodist", "sorting without distances accepted");
    if (!d.X.pad_ok()) c.fail("rnn:input", "training data changed");
    c.note("%s", desc(g, x).c_str());
}
template <class T> void perms(mc::Ctx &c, int n) {
    static const double V[] = {0, 1, 2, 4, 7, 11, 16, 22};
    Cfg g; g.met = c.choose(3, "metric"); g.alg = c.choose(7, "algorithm"); g.o = column_major; g.pad = 1;
    std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    Pts x;
    for (int i = 0; i < n; i++) { int k = c.choose(left.size()); x.push_back({V[left[k]] * SC, (double)(left[k] % 2) * SC}); left.erase(left.begin() + k); }
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    Pts q = {{-1, 0}, {3, 0}, {5, 1}, {9, 0}, {30, 1}};
    q = scaled(q);
    int k = 0;
    for (double r : {1 * SC, 2 * SC, 4 * SC, 9 * SC, 40 * SC}) check_radius(c, h, g, x, q, r, k++ % 3, r);
}
// blocks of training points and queries: one pair of near points anywhere among far ones
template <class T> void place(mc::Ctx &c, std::vector<int> ns, std::vector<int> nqs) {
    int n = c.pick(ns, "n"), nq = c.pick(nqs, "queries");
    Cfg g; g.met = c.pick(std::vector<int>{0, 2, 1, 4, 7}, "metric"); g.alg = c.pick(std::vector<int>{0, 3, 4}, "algorithm");
    if (!METS[g.met].tree && g.alg) c.prune();
    g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    int step = std::max(1, n / (mc::lite() ? 5 : 29));
    int a = c.choose((n + step - 1) / step) * step, b = (a + n / 2 + 1) % n;
    Pts x, q;
    for (int i = 0; i < n; i++) x.push_back({50.0 + (i * 7 % 13), (double)(i % 3)});
    x[a] = {1, 0}; x[b] = {3, 0};
    for (int i = 0; i < nq; i++) q.push_back({i % 7 == 3 ? 1.0 : i % 5 == 1 ? 56.0 : -40, 0});
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    check_radius(c, h, g, x, q, 2, 2, 2);
    check_radius(c, h, g, x, q, 4, 1, 4);
}
template <class T> void rough(mc::Ctx &c) {
    static const Pts G = {{0.1, 0.3}, {0.1 + 1e-9, 0.3}, {100.1, 100.3}, {100.1, 100.3 + 1e-6}, {0.7, -0.2}};
    Cfg g = choose_cfg(c, NMET, 5);
    if (METS[g.met].kind == 5) c.prune();
    int n = 2 + c.choose(2);
    Pts x = choose_points(c, G, n);
    for (auto &r : x) for (auto &v : r) v = (double)(T)v;
    Pts q = G; for (auto &r : q) for (auto &v : r) v = (double)(T)v;
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    bool gemm = strstr(METS[g.met].name, "gemm");
    double sl = gemm ? 2e5 : 1000; // coordinates up to 1e2: squares lose up to 1e4*eps absolutely
    for (double r : {0.25, 0.9, 150.0}) check_radius(c, h, g, x, q, r, 2, r, sl);
    check_radius(c, h, g, x, q, 0.9, 1, 0.9, sl);
}
// one handle used again with another metric and data; refused calls in between must not disturb kept results
template <class T> void reuse(mc::Ctx &c) {
    Cfg g = choose_cfg(c, NMET, 3, false);
    if (METS[g.met].kind == 5) c.prune();
    Cfg g2 = g; g2.met = c.choose(NMET, "second metric");
    if (METS[g2.met].kind == 5 || (!METS[g2.met].tree && g.alg)) c.prune();
    bool refresh = c.choose(2);
    Pts x = scaled({{0, 0}, {3, 4}, {0, 2}}), x2 = scaled({{1, -1}, {3, 0}, {3, 4}}), q = scaled({{0, 0}, {0, 4}});
    if (c.choose(2)) std::swap(x, x2);
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g), d2(x2, g);
    set_data(c, h, g, x, d);
    check_radius(c, h, g, x, q, 137, 2, 137);
    if (refresh) da_handle_refresh(h);
    configure(c, h, g2);
    set_data(c, h, g2, x2, d2);
    check_radius(c, h, g2, x2, q, 137, 1, 137);
    check_radius(c, h, g2, x2, q, 200, 2, 200);
}
template <class T> void refused(mc::Ctx &c) {
    Cfg g = choose_cfg(c, 5, 3, false);
    int mode = 1 + c.choose(2), bad = c.choose(5);
    Pts x = scaled({{0, 0}, {3, 4}, {0, 2}}), q = scaled({{0, 0}, {0, 4}});
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    auto Q = rowsof<T>(q, g.o, 0);
    if (da_nn_radius_neighbors<T>(h, 2, 2, Q.p(), Q.ld, (T)400, 1, mode == 2)) c.fail("rnn:status", "refused");
    auto cnt = get<da_int>(c, h, da_nn_radius_neighbors_count, 3, "count");
    auto before = get<T>(c, h, da_nn_radius_neighbors_distances, cnt[2], "distances");
    da_status st;
    da_int s2 = c.choose(2), rd = s2 || c.choose(2);
    c.op();
    switch (bad) {
    case 0: st = da_nn_radius_neighbors<T>(h, 2, 3, Q.p(), Q.ld, (T)1, rd, s2); break;
    case 1: st = da_nn_radius_neighbors<T>(h, 0, 2, Q.p(), Q.ld, (T)1, rd, s2); break;
    case 2: st = da_nn_radius_neighbors<T>(h, 2, 2, nullptr, Q.ld, (T)1, rd, s2); break;
    case 3: st = da_nn_radius_neighbors<T>(h, 2, 2, Q.p(), 1, (T)1, rd, s2); break;
    default: st = da_nn_radius_neighbors<T>(h, 2, 2, Q.p(), Q.ld, (T)1, 0, 1);
    }
    if (!st) c.fail("rnn:bad-accepted", "bad call %d accepted", bad);
    std::vector<T> after(cnt[2]);
    da_int dim = cnt[2];
    st = getres<T>(h, da_nn_radius_neighbors_distances, &dim, after.data());
    if (st == da_status_no_data) c.fail("rnn:lost", "results lost after a refused call %d (%s)", bad, desc(g, x).c_str());
    if (st) c.fail("rnn:after", "status %d", (int)st);
    for (int i = 0; i < cnt[2]; i++) if (!same_bits(after[i], before[i]))
        c.fail("rnn:changed", "distance %d was %g, after a refused call %d it reads %g; sorted=%d then %d; %s", i, (double)before[i], bad, (double)after[i], mode == 2, (int)s2, desc(g, x).c_str());
}
// a refused set_data must leave either the old data in force or none
template <class T> void refused_data(mc::Ctx &c) {
    Cfg g; g.met = c.choose(3, "metric"); g.alg = c.choose(3, "algorithm"); g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    int bad = c.choose(4), api = c.choose(2);
    Pts x = scaled({{0, 0}, {3, 4}, {0, 2}}), q = scaled({{0, 0}, {0, 4}});
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g), d2(scaled({{1, 1}, {1, 4}, {1, 2}}), g);
    set_data(c, h, g, x, d);
    c.op();
    da_status st = bad == 0 ? da_nn_set_data<T>(h, 3, 2, nullptr, 3) : bad == 1 ? da_nn_set_data<T>(h, 3, 2, d2.X.p(), 1) : bad == 2 ? da_nn_set_data<T>(h, 4, 2, d2.X.p(), 4)
                                                                                                                      : da_nn_set_data<T>(h, 3, 0, d2.X.p(), 3);
    if (!st) c.fail("rnn:bad-data", "bad set_data %d accepted", bad);
    auto Q = rowsof<T>(q, g.o, 0);
    if (api) {
        std::vector<da_int> ind(2); std::vector<T> ds(2);
        st = da_nn_kneighbors<T>(h, 2, 2, Q.p(), Q.ld, ind.data(), ds.data(), 1, 1);
        if (st == da_status_no_data) return;
        check_knn(c, h, g, x, q, 2, true);
    } else {
        st = da_nn_radius_neighbors<T>(h, 2, 2, Q.p(), Q.ld, (T)137, 1, 0);
        if (st == da_status_no_data) return;
        check_radius(c, h, g, x, q, 137, 2, 137);
    }
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    int nr = t ? 8 : 7;
    for (int n = 1; n <= (t ? 5 : l ? 1 : 4); n++) {
        add("grid1d-n" + std::to_string(n) + "<double>", 3, [=](mc::Ctx &c) { grid<double>(c, G1, Q1, n, NMET, NALG, nr); });
        add("grid1d-n" + std::to_string(n) + "<float>", 3, [=](mc::Ctx &c) { grid<float>(c, G1, Q1, n, NMET, 5, nr); });
    }
    add("reuse<double>", 2, reuse<double>);
    add("reuse<float>", 2, reuse<float>);
    add("refused-data<double>", 2, refused_data<double>);
    add("refused-data<float>", 2, refused_data<float>);
    add("refused<double>", 2, refused<double>);
    add("refused<float>", 2, refused<float>);
    static const Pts G5 = {{0, 0}, {3, 4}, {0, 2}, {1, -1}, {3, 0}}, Q5 = {{0, 0}, {0, 4}, {2, -1}, {0.5, 0.5}};
    if (l) {
        add("grid2d-n2<double>", 4, [=](mc::Ctx &c) { grid<double>(c, G5, Q5, 2, 5, 5, nr); });
        add("perms<double>", 4, [=](mc::Ctx &c) { perms<double>(c, 4); });
        add("place<double>", 4, [](mc::Ctx &c) { place<double>(c, {260}, {257}); });
        return;
    }
    for (int n = 3; n <= (t ? 6 : 5); n++) add("grid2d-n" + std::to_string(n) + "<double>", 4, [=](mc::Ctx &c) { grid<double>(c, G5, Q5, n, n < 5 ? NMET : 7, n < 5 ? NALG : 3, nr); });
    add("grid3d-n4<float>", 4, [=](mc::Ctx &c) { grid<float>(c, G3, Q3, 4, NMET, 3, nr); });
    add("perms<double>", 4, [=](mc::Ctx &c) { perms<double>(c, t ? 8 : 6); });
    add("perms<float>", 4, [=](mc::Ctx &c) { perms<float>(c, t ? 7 : 6); });
    add("place<double>", 4, [](mc::Ctx &c) { place<double>(c, {300, 513}, {3, 257}); });
    add("place<float>", 4, [](mc::Ctx &c) { place<float>(c, {260}, {513}); });
    add("rough<double>", 4, rough<double>);
    add("rough<float>", 4, rough<float>);
}
