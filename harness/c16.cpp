// C16: decision trees. Every fitted tree is checked node by node against the definition of a greedy tree.
#include "tree.hpp"
template <class T> void raw(mc::Ctx &c, int n, int vals, int m, int nc, int level) {
    int l29 = mc::lite() ? 3 : 29;
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y);
    Pts q = grid(vals * 2 + 1, m > 2 ? 1 : m, 0.5, -0.5);
    if (m > 2) q = grid(vals, m, 1, 0);
    Handle<T> h(da_handle_decision_tree);
    for (int sc = 0; sc < 3; sc++) for (int mn = 1; mn <= (level > 1 ? 3 : 2); mn++) {
        Opt g; g.score = sc; g.minn = mn;
        g.o = (sc + mn) & 1 ? row_major : column_major; g.pad = sc == 1 ? 2 : 0;
        fit_check(c, h, g, x, y, nc, q);
    }
    if (level > 0) {
        Opt g; g.minn = 1;
        for (int d = 0; d < 3; d++) { g.depth = d; g.pad = d; fit_check(c, h, g, x, y, 0, q); }
        g.depth = l29; g.minscore = 0.45; fit_check(c, h, g, x, y, nc, q);
        g.minscore = 0; g.mindec = 0.1; fit_check(c, h, g, x, y, nc, q);
        g.mindec = 0; g.fthr = 0; fit_check(c, h, g, x, y, nc, q);
        g.fthr = 1e-5; for (g.nfeat = 1; g.nfeat < m; g.nfeat++) for (g.seed = 0; g.seed < 2; g.seed++) fit_check(c, h, g, x, y, nc + 1, q);
    }
}
template <class T> void cats(mc::Ctx &c, int n, int vals, int m, int nc, bool hist) {
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y);
    Pts q = grid(vals, m, 1, 0);
    Handle<T> h(da_handle_decision_tree);
    Opt g; g.onevall = true;
    for (g.score = 0; g.score < 3; g.score++) for (g.minn = 1; g.minn < 3; g.minn++) {
        std::vector<da_int> nk(m, vals);
        g.o = (g.score + g.minn) & 1 ? row_major : column_major; g.pad = g.score == 1 ? 1 : 0;
        for (g.cat = 1; g.cat < 3 && !hist; g.cat++) fit_check(c, h, g, x, y, nc, q, nk);
        if (!hist && m > 1) { nk[0] = -1; g.cat = 1; fit_check(c, h, g, x, y, nc, q, nk); }
        if (hist) {
            g.cat = 0; g.hist = 1;
            fit_check(c, h, g, x, y, nc, q);
        }
    }
}
// data binned with a few bins: structure and routing, and the bins themselves
template <class T> void hist(mc::Ctx &c, int n, int vals, int m, int nc, bool onev, double step, double off) {
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y, step, off);
    Pts q = grid(vals * 2 + 1, m, step / 2, off - step / 2);
    Handle<T> h(da_handle_decision_tree);
    Opt g; g.hist = 1; g.onevall = onev;
    for (g.bins = 2; g.bins <= 4; g.bins++) {
        g.minn = 1 + g.bins % 2; g.score = g.bins % 3;
        g.o = g.bins & 1 ? row_major : column_major; g.pad = g.bins == 4 ? 3 : 0;
        configure(c, h, g);
        std::vector<da_int> hk(m, 0);
        int mb = std::min(g.bins, n / 2);
        fit_check(c, h, g, x, y, nc, q, hk);
        auto *t = dynamic_cast<DT<T> *>(h.h->template get_alg_handle<T>());
        auto &b = *t->X_binned;
        auto D = [&] { return desc(g, x, y); };
        for (int f = 0; f < m; f++) {
            std::set<double> s; for (auto &r : x) s.insert((T)r[f]);
            int nb = b.nbins[f];
            if (nb < 1 || nb > mb) c.fail("hist:nbins", "feature %d has %d bins of at most %d; %s", f, nb, mb, D().c_str());
            if (nb > (int)s.size()) c.fail("hist:nbins", "feature %d with %zu values has %d bins; %s", f, s.size(), nb, D().c_str());
            for (int i = 0; i < n; i++) {
                int k = 0; while (k + 1 < nb && (T)x[i][f] >= b.thresholds[f * (b.max_bin - 1) + k]) k++;
                if (b.binned_data[f * n + i] != k) c.fail("hist:bin", "value %g of feature %d is in bin %d, thresholds %s put it in %d; %s", x[i][f], f, (int)b.binned_data[f * n + i], str(b.thresholds).c_str(), k, D().c_str());
            }
            for (int k = 0; k + 2 < nb; k++) if (!(b.thresholds[f * (b.max_bin - 1) + k] < b.thresholds[f * (b.max_bin - 1) + k + 1])) c.fail("hist:order", "thresholds %s; %s", str(b.thresholds).c_str(), D().c_str());
        }
    }
}
// bootstrap with every multiset of drawn samples
template <class T> void boot(mc::Ctx &c, int n, int vals, int m, int nc, int draws) {
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y);
    std::vector<da_int> sub; std::vector<double> w(n, 0);
    int lo = 0;
    for (int i = 0; i < draws; i++) { lo += c.choose(n - lo); sub.push_back(lo); w[lo]++; }
    std::rotate(sub.begin(), sub.begin() + draws / 2, sub.end());
    auto X = rowsof<T>(x, column_major, 0);
    std::vector<da_int> Y(y.begin(), y.end()), nk(m, vals);
    for (int mode = 0; mode < 3; mode++) for (int sc = 0; sc < 3; sc++) for (int mn = 1; mn < 3; mn++) { // raw, one-vs-all, histogram
        Opt g; g.score = sc; g.minn = mn; g.onevall = mode == 1; g.cat = mode == 1; g.hist = mode == 2;
        if (g.hist && n < 4) continue;
        DT<T> t(nullptr, g.depth, mn, sc == 0 ? (da_int)da_tree_options_types::gini : sc == 1 ? (da_int)da_tree_options_types::cross_entropy : (da_int)da_tree_options_types::misclassification,
                           0, 3, (T)0, (T)1e-5, (T)0, true, 0, 10, mode == 2, 256, (T)0, mode == 1 ? categorical_onevall : categorical_ordered, 1);
        da_errors::da_error_t err(da_errors::DA_RECORD);
        t.err = &err;
        c.op(2);
        da_status s = t.set_training_data(n, m, X.p(), X.ld, Y.data(), nc, draws, sub.data(), mode == 1 ? nk.data() : nullptr);
        if (!s) s = t.fit();
        if (s) c.fail("tree:boot", "status %d; %s", (int)s, desc(g, x, y).c_str());
        check_tree(c, &t, g, x, y, nc, w, t.n_nodes, mode == 1 ? nk : std::vector<da_int>());
        c.out(t.n_nodes);
    }
}
// values a rounding error apart, and huge values
template <class T> void extreme(mc::Ctx &c, int n) {
    T e = std::numeric_limits<T>::epsilon(), big = std::numeric_limits<T>::max();
    std::vector<T> base = {(T)1, (T)(1 + e), (T)(1 + 2 * e), (T)(1 + 3 * e)};
    if (c.choose(2)) base = {(T)(2 / e), (T)(2 / e + 4), (T)(2 / e + 8), (T)(-2 / e)};
    else if (c.choose(2)) base = {big, (T)(big / 2), (T)(-big), (T)(big * (T)0.75)};
    Pts x; std::vector<int> y;
    for (int i = 0; i < n; i++) x.push_back({(double)base[c.choose(4)]}), y.push_back(c.choose(2));
    Handle<T> h(da_handle_decision_tree);
    for (int k = 0; k < 2; k++) { Opt g; g.minn = 1; g.fthr = k ? 1e-5 : 0; if (k && base[0] == 1) continue; if (!k && base[0] == 1) continue; fit_check(c, h, g, x, y, 2, x); }
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    struct S { int n, v, m, k, lv; };
    std::vector<S> R = l ? std::vector<S>{{2, 2, 2, 2, 1}, {4, 2, 1, 2, 1}} : std::vector<S>{{4, 3, 2, 2, 2}, {5, 3, 1, 3, 2}, {6, 3, 1, 2, 2}, {6, 2, 2, 2, 1}, {4, 2, 3, 3, 0}, {5, 2, 3, 2, 0}};
    if (t) R = {{5, 3, 2, 2, 2}, {4, 3, 2, 3, 2}, {6, 3, 1, 3, 2}, {8, 3, 1, 2, 2}, {5, 2, 3, 3, 1}, {6, 2, 3, 2, 1}, {5, 4, 2, 2, 0}};
    for (auto s : R) {
        char b[80]; snprintf(b, 80, "raw<double>n%dv%dm%dk%d", s.n, s.v, s.m, s.k);
        add(b, 4, [=](mc::Ctx &c) { raw<double>(c, s.n, s.v, s.m, s.k, s.lv); });
    }
    add("raw<float>", 4, [=](mc::Ctx &c) { raw<float>(c, l ? 2 : 4, 2, 2, 2, 2); });
    add("onevall<double>", 4, [=](mc::Ctx &c) { cats<double>(c, l ? 2 : t ? 4 : 3, l ? 2 : 3, 2, 2, false); });
    add("onevall1<float>", 4, [=](mc::Ctx &c) { cats<float>(c, l ? 3 : t ? 8 : 6, l ? 2 : 3, 1, 3, false); });
    add("onevallhist<double>", 4, [=](mc::Ctx &c) { cats<double>(c, l ? 6 : 8, 3, 1, 2, true); });
    add("onevallhist2<double>", 4, [=](mc::Ctx &c) { cats<double>(c, 6, 2, 2, l ? 1 : 2, true); });
    add("hist<double>", 4, [=](mc::Ctx &c) { hist<double>(c, l ? 4 : t ? 8 : 7, 4, 1, 2, false, 1, 0); });
    add("hist2<float>", 4, [=](mc::Ctx &c) { hist<float>(c, l ? 4 : t ? 6 : 4, l ? 2 : 3, 2, l ? 1 : 2, false, 0.5, -1); });
    add("histonevall<double>", 4, [=](mc::Ctx &c) { hist<double>(c, l ? 4 : 6, 3, 1, 2, true, 0.4, -0.4); });
    add("boot<double>", 4, [=](mc::Ctx &c) { boot<double>(c, l ? 2 : 4, 2, 2, 2, l ? 2 : 4); });
    add("boot1<double>", 4, [=](mc::Ctx &c) { boot<double>(c, l ? 3 : t ? 5 : 4, 3, 1, 2, l ? 3 : t ? 5 : 4); });
    add("extreme<double>", 4, [=](mc::Ctx &c) { extreme<double>(c, t ? 5 : l ? 2 : 4); });
    add("extreme<float>", 4, [=](mc::Ctx &c) { extreme<float>(c, t ? 5 : l ? 2 : 3); });
}
