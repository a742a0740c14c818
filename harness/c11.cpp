// C11: k nearest neighbours against the definition.
#include "nn.hpp"
// unit distances hide a distance mixed up with its square: also in sixteenths, which are exact too
template <class T> void grid(mc::Ctx &c, const Pts &G, Pts Q, int n, int nmet, int nalg, bool scales = false) {
    Cfg g = choose_cfg(c, nmet, nalg);
    double sc = scales && c.choose(2, "sixteenths") ? 0.0625 : 1;
    Pts x = choose_points(c, G, n);
    for (auto &r : x) for (auto &v : r) v *= sc;
    for (auto &r : Q) for (auto &v : r) v *= sc;
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    h.must(c, "number of neighbors", 2);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    for (int k = 1; k <= n; k++) check_knn(c, h, g, x, Q, k, true);
    check_knn(c, h, g, x, Q, std::min(2, n), false);
    check_knn(c, h, g, x, Q, n + 1, true);
    check_knn(c, h, g, x, Q, 0, true, 2);
    check_knn(c, h, g, x, Q, -1, true, 2);
    if (!d.X.pad_ok()) c.fail("nn:input", "training data changed");
    c.note("%s", desc(g, x).c_str());
}
// every permutation of distinct values: every shape the tree builders can be handed
template <class T> void perms(mc::Ctx &c, int n) {
    static const double V[] = {0, 1, 2, 4, 7, 11, 16, 22};
    Cfg g; g.met = c.pick(std::vector<int>{0, 1, 2, 4}, "metric"); g.alg = c.choose(7, "algorithm"); g.o = column_major; g.pad = 1;
    double sc = n > 4 && c.choose(2, "sixteenths") ? 0.0625 : 1;
    std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    Pts x;
    for (int i = 0; i < n; i++) { int k = c.choose(left.size()); x.push_back({V[left[k]] * sc, (left[k] % 2) * sc}); left.erase(left.begin() + k); }
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    Pts q = {{-1, 0}, {3, 0}, {5, 1}, {9, 0}, {30, 1}};
    for (auto &r : q) for (auto &v : r) v *= sc;
    for (int k : {1, 2, 3, n}) check_knn(c, h, g, x, q, k, true);
}
// two near points at every pair of places among many far ones: vector lanes, tails, block edges, deep trees
template <class T> void place(mc::Ctx &c, std::vector<int> ns, std::vector<int> mets, std::vector<int> algs) {
    int n = c.pick(ns, "n");
    Cfg g; g.met = c.pick(mets, "metric"); g.alg = c.pick(algs, "algorithm");
    if (!METS[g.met].tree && g.alg) c.prune();
    g.o = c.choose(2) ? row_major : column_major; g.pad = 0;
    int step = n > 64 ? n / 37 : 1;
    int a = c.choose((n + step - 1) / step) * step, b = c.choose((n + step - 1) / step) * step;
    if (n > 64) { if (b % 5 && b != a + step) c.prune(); }
    else if (b < a) c.prune();
    bool ip = METS[g.met].kind == 5;
    Pts x;
    for (int i = 0; i < n; i++) x.push_back(ip ? std::vector<double>{-1.0 * (i * 7 % 13), 1} : std::vector<double>{20.0 + (i * 7 % 13), (double)(i % 3)});
    x[a] = {ip ? 4.0 : 1.0, 0}; x[b] = {ip ? 9.0 : 2.0, 1};
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    Pts q = {{ip ? 1.0 : 0.0, 0}};
    for (int k : {1, 2, 3, 5}) check_knn(c, h, g, x, q, k, true);
    check_knn(c, h, g, x, {{ip ? 1.0 : 33.0, 1}, {ip ? -1.0 : 1.0, 2}}, 4, true);
}
// many queries: the query blocks and their edges
template <class T> void many_queries(mc::Ctx &c, std::vector<int> nqs) {
    Cfg g = choose_cfg(c, 6, 3);
    int nq = c.pick(nqs, "queries"), n = c.pick(std::vector<int>{5, 257}, "n");
    Pts x, q;
    for (int i = 0; i < n; i++) x.push_back({(double)(i * 3), (double)(i % 2)});
    for (int i = 0; i < nq; i++) q.push_back({(double)((i * 5) % (3 * n)), 1});
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    check_knn(c, h, g, x, q, 3, true);
}
// values that are not exactly representable, nearly equal points: cancellation must not give NaN or wrong neighbours
template <class T> void rough(mc::Ctx &c) {
    static const Pts G = {{0.1, 0.3}, {0.1 + 1e-9, 0.3}, {100.1, 100.3}, {100.1, 100.3 + 1e-6}, {0.7, -0.2}};
    Cfg g = choose_cfg(c, NMET, 5);
    int n = 2 + c.choose(3);
    Pts x = choose_points(c, G, n);
    for (auto &r : x) for (auto &v : r) v = (double)(T)v;
    Pts q; for (auto &r : G) { q.push_back(r); for (auto &v : q.back()) v = (double)(T)v; }
    Handle<T> h(da_handle_nn);
    configure(c, h, g);
    Data<T> d(x, g);
    set_data(c, h, g, x, d);
    bool gemm = strstr(METS[g.met].name, "gemm");
    for (int k = 1; k <= n; k++) {
        // the GEMM form may lose the low half of the digits: compare the squares
        const Met &m = METS[g.met];
        if (!gemm) { check_knn(c, h, g, x, q, k, true, 0, 50); continue; }
        auto Q = rowsof<T>(q, g.o, g.pad);
        std::vector<da_int> ind(q.size() * k); std::vector<T> ds(q.size() * k);
        c.op();
        da_status st = da_nn_kneighbors<T>(h, q.size(), 2, Q.p(), Q.ld, ind.data(), ds.data(), k, 1);
        if (st) c.fail("knn:status", "status %d", (int)st);
        for (auto v : ds) if (!(v >= 0)) c.fail("knn:gemm-nan", "distance %g returned; k=%d %s", (double)v, k, desc(g, x).c_str());
        for (size_t i = 0; i < ds.size(); i++) {
            size_t qi = g.o == column_major ? i % q.size() : i / k;
            double t = refdist(m, x[ind[i]], q[qi]), a = m.kind == 0 ? (double)ds[i] * ds[i] : ds[i], b = m.kind == 0 ? t * t : t;
            double mag = 0; for (auto &v : x[ind[i]]) mag += v * v; for (auto &v : q[qi]) mag += v * v;
            if (std::fabs(a - b) > 40 * eps<T>() * mag) c.fail("knn:gemm-distance", "squared distance %g, true %g; %s", a, b, desc(g, x).c_str());
        }
    }
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    for (int n = 1; n <= (t ? 5 : l ? 2 : 4); n++) {
        add("grid1d-n" + std::to_string(n) + "<double>", 3, [=](mc::Ctx &c) { grid<double>(c, G1, Q1, n, NMET, NALG); });
        add("grid1d-n" + std::to_string(n) + "<float>", 3, [=](mc::Ctx &c) { grid<float>(c, G1, Q1, n, t || !l ? NMET : 3, 5); });
    }
    if (l) {
        add("grid2d-n3<double>", 4, [=](mc::Ctx &c) { grid<double>(c, G2, Q2, 3, 6, 3); });
        add("perms<double>", 4, [=](mc::Ctx &c) { perms<double>(c, 4); });
        add("place-blocks<double>", 4, [](mc::Ctx &c) { place<double>(c, {300}, {0}, {0, 3}); });
        add("many-queries<double>", 4, [](mc::Ctx &c) { many_queries<double>(c, {257, 1025}); });
        return;
    }
    for (int n = 3; n <= (t ? 6 : 5); n++) add("grid2d-n" + std::to_string(n) + "<double>", 4, [=](mc::Ctx &c) { grid<double>(c, G2, Q2, n, n < 5 ? NMET : 7, n < 5 ? NALG : 3, n < 5); });
    add("grid3d-n4<float>", 4, [=](mc::Ctx &c) { grid<float>(c, G3, Q3, 4, NMET, 3, true); });
    add("perms<double>", 4, [=](mc::Ctx &c) { perms<double>(c, t ? 8 : 6); });
    add("perms<float>", 4, [=](mc::Ctx &c) { perms<float>(c, t ? 7 : 6); });
    add("place<double>", 4, [](mc::Ctx &c) { place<double>(c, {11, 21}, {0, 5, 1}, {0, 1, 2, 4, 3}); });
    add("place<float>", 4, [](mc::Ctx &c) { place<float>(c, {19}, {0, 5}, {0, 1, 4}); });
    add("place-blocks<double>", 4, [](mc::Ctx &c) { place<double>(c, {300, 513}, {0, 5}, {0, 3, 4}); });
    add("place-blocks<float>", 4, [](mc::Ctx &c) { place<float>(c, {700}, {0, 5}, {0, 1}); });
    add("many-queries<double>", 4, [](mc::Ctx &c) { many_queries<double>(c, {255, 257, 1023, 1025, 2049}); });
    add("many-queries<float>", 4, [](mc::Ctx &c) { many_queries<float>(c, {255, 257, 1023, 1025, 2049}); });
    add("rough<double>", 4, rough<double>);
    add("rough<float>", 4, rough<float>);
}
