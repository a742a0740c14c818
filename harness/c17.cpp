// C17: random forests.
#include "tree.hpp"
#include "forest/decision_forest.hpp"
template <class T> using DF = da_dynamic_dispatch_generic::da_decision_forest::decision_forest<T>;
struct FOpt { Opt g; int trees = 3, boot = 0, block = 256, fsel = 0; double factor = 1, prop = 0.5; int nfc = 0; };
static const char *FSEL[] = {"all", "sqrt", "log2", "proportion", "custom"};
static std::string fdesc(const FOpt &f, const Pts &x, const std::vector<int> &y) {
    char b[200]; snprintf(b, 200, "trees %d seed %d bootstrap %d factor %g block %d features %s(%g,%d) ", f.trees, f.g.seed, f.boot, f.factor, f.block, FSEL[f.fsel], f.prop, f.nfc);
    return b + desc(f.g, x, y);
}
template <class T> void fconf(mc::Ctx &c, Handle<T> &h, const FOpt &f) {
    static const char *sc[] = {"gini", "cross-entropy", "misclassification"};
    const Opt &g = f.g;
    h.must(c, "scoring function", sc[g.score]);
    h.must(c, "maximum depth", g.depth);
    h.must(c, "node minimum samples", g.minn);
    h.must(c, "histogram", g.hist ? "yes" : "no");
    h.must(c, "maximum bins", g.bins);
    h.must(c, "category split strategy", g.onevall ? "one-vs-all" : "ordered");
    h.mustr(c, "minimum split score", g.minscore);
    h.mustr(c, "minimum impurity decrease", g.mindec);
    h.mustr(c, "feature threshold", g.fthr);
    h.must(c, "seed", g.seed);
    h.must(c, "number of trees", f.trees);
    h.must(c, "bootstrap", f.boot ? "yes" : "no");
    h.mustr(c, "bootstrap samples factor", f.factor);
    h.must(c, "block size", f.block);
    h.must(c, "features selection", FSEL[f.fsel]);
    h.must(c, "maximum features", f.nfc);
    h.mustr(c, "proportion features", f.prop);
    h.order(c, g.o);
}
template <class T> struct Out { std::vector<da_int> y; std::vector<std::vector<T>> p, lp; T acc; };
template <class T> Out<T> fpredict(mc::Ctx &c, Handle<T> &h, const FOpt &f, const Pts &q, int nc, const Pts &x, const std::vector<int> &y) {
    auto D = [&] { return fdesc(f, x, y); };
    int nq = q.size(), m = q[0].size(), pad = f.g.pad; auto o = f.g.o;
    auto Q = rowsof<T>(q, o, pad);
    Out<T> r; r.y.assign(nq, -9);
    Mat<T> P(nq, nc, o, pad, (T)-5), LP(nq, nc, o, pad, (T)-5);
    c.op(4);
    da_status s1 = da_forest_predict<T>(h, nq, m, Q.p(), Q.ld, r.y.data());
    da_status s2 = da_forest_predict_proba<T>(h, nq, m, Q.p(), Q.ld, P.p(), nc, P.ld);
    da_status s3 = da_forest_predict_log_proba<T>(h, nq, m, Q.p(), Q.ld, LP.p(), nc, LP.ld);
    if (s1 || s2 || s3) c.fail("forest:predict", "predict %d proba %d log %d; %s", (int)s1, (int)s2, (int)s3, D().c_str());
    if (!P.pad_ok() || !LP.pad_ok() || !Q.pad_ok()) c.fail("forest:padding", "padding written; %s", D().c_str());
    for (int i = 0; i < nq; i++) {
        r.p.push_back({}); r.lp.push_back({});
        for (int j = 0; j < nc; j++) r.p[i].push_back(P(i, j)), r.lp[i].push_back(LP(i, j));
    }
    for (int a = 0; a < 2; a++) {
        std::vector<da_int> yt(nq); int good = 0;
        for (int i = 0; i < nq; i++) { yt[i] = a ? (r.y[i] + i % 2) % nc : r.y[i]; good += yt[i] == r.y[i]; }
        T acc = -1;
        da_status s = da_forest_score<T>(h, nq, m, Q.p(), Q.ld, yt.data(), &acc);
        if (s || !near(acc, (double)good / nq, 4 * eps<T>())) c.fail("forest:accuracy", "score status %d value %g, %d of %d right; %s", (int)s, (double)acc, good, nq, D().c_str());
    }
    return r;
}
template <class T> Out<T> ffit(mc::Ctx &c, Handle<T> &h, const FOpt &f, const Pts &x, const std::vector<int> &y, int nc, const Pts &q, std::vector<da_int> cat = {}) {
    auto D = [&] { return fdesc(f, x, y); };
    int n = x.size(), m = x[0].size();
    fconf(c, h, f);
    auto X = rowsof<T>(x, f.g.o, f.g.pad);
    std::vector<da_int> Y(y.begin(), y.end());
    c.op(2);
    da_status s = da_forest_set_training_data<T>(h, n, m, nc, X.p(), X.ld, Y.data(), cat.size() ? cat.data() : nullptr);
    if (s) c.fail("forest:data", "set_training_data status %d; %s", (int)s, D().c_str());
    s = da_forest_fit<T>(h);
    if (s) c.fail("forest:fit", "fit status %d; %s", (int)s, D().c_str());
    auto R = get<T>(c, h, da_rinfo, 6, "rinfo");
    int nobs = f.boot ? std::max(1, (int)std::round(n * (T)f.factor)) : n;
    if ((int)R[0] != m || (int)R[1] != n || (int)R[2] != nobs || (int)R[3] != f.g.seed || (int)R[4] != f.trees)
        c.fail("forest:rinfo", "rinfo %s; %s", str(R).c_str(), D().c_str());
    auto *F = dynamic_cast<DF<T> *>(h.h->template get_alg_handle<T>());
    if ((int)F->forest.size() != f.trees) c.fail("forest:size", "%zu trees; %s", F->forest.size(), D().c_str());
    Out<T> o = fpredict(c, h, f, q, nc, x, y);
    int nq = q.size();
    std::vector<std::vector<double>> votes(nq, std::vector<double>(nc, 0)), prob = votes;
    for (auto &tp : F->forest) {
        DT<T> *t = tp.get();
        auto &nd = t->get_tree();
        auto leaf = [&](const std::vector<double> &v) {
            int k = 0;
            while (!nd[k].is_leaf) k = goes_left(nd[k], (T)v[nd[k].feature]) ? nd[k].left_child_idx : nd[k].right_child_idx;
            return k;
        };
        if (nd[0].n_samples != nobs) c.fail("forest:drawn", "a tree was trained on %d samples, not %d; %s", (int)nd[0].n_samples, nobs, D().c_str());
        if (!f.boot) {
            Opt g = f.g;
            g.nfeat = f.fsel == 0 ? m : f.fsel == 1 ? (int)std::ceil(std::sqrt(m)) : f.fsel == 2 ? (int)std::ceil(std::log2(m)) : f.fsel == 3 ? (int)std::ceil(f.prop * m) : f.nfc;
            // the split search of a histogram tree reads bins the forest owns
            check_tree(c, t, g, x, y, nc, std::vector<double>(n, 1.0), t->n_nodes, cat);
        } else {
            // every class share in a leaf comes from training samples that reach it
            std::map<int, std::set<int>> cl;
            for (int i = 0; i < n; i++) cl[leaf(x[i])].insert(y[i]);
            da_int total = 0;
            for (int k = 0; k < t->n_nodes; k++) if (nd[k].is_leaf) {
                total += nd[k].n_samples;
                double sum = 0, mx = 0;
                for (int j = 0; j < nc; j++) {
                    double p = t->class_props[k * nc + j], cnt = p * nd[k].n_samples;
                    sum += p; mx = std::max(mx, p);
                    if (p < 0 || !near(cnt, std::round(cnt), 50 * eps<T>() * nobs)) c.fail("forest:share", "leaf share %g of %d samples; %s", p, (int)nd[k].n_samples, D().c_str());
                    if (p > 0 && !cl[k].count(j)) c.fail("forest:share", "a leaf counts class %d, no sample of it reaches the leaf; %s", j, D().c_str());
                }
                if (!near(sum, 1, 50 * eps<T>())) c.fail("forest:share", "leaf shares sum to %g; %s", sum, D().c_str());
                if (!near(t->class_props[k * nc + nd[k].y_pred], mx, 4 * eps<T>())) c.fail("forest:majority", "leaf predicts class %d; %s", (int)nd[k].y_pred, D().c_str());
                if (nd[k].depth > f.g.depth) c.fail("forest:depth", "leaf at depth %d; %s", (int)nd[k].depth, D().c_str());
                if (nd[k].n_samples < f.g.minn && k > 0) c.fail("forest:minsamples", "leaf of %d samples; %s", (int)nd[k].n_samples, D().c_str());
            }
            if (total != nobs) c.fail("forest:drawn", "leaves hold %d samples of %d; %s", (int)total, nobs, D().c_str());
        }
        for (int i = 0; i < nq; i++) {
            int k = leaf(q[i]);
            votes[i][nd[k].y_pred]++;
            for (int j = 0; j < nc; j++) prob[i][j] += (double)t->class_props[k * nc + j] / f.trees;
        }
    }
    for (int i = 0; i < nq; i++) {
        double mx = *std::max_element(votes[i].begin(), votes[i].end());
        if (o.y[i] < 0 || o.y[i] >= nc || votes[i][o.y[i]] != mx) c.fail("forest:vote", "%s predicted %d, votes %s; %s", str(q[i]).c_str(), (int)o.y[i], str(votes[i]).c_str(), D().c_str());
        for (int j = 0; j < nc; j++) {
            if (!near(o.p[i][j], prob[i][j], 50 * eps<T>())) c.fail("forest:proba", "%s probability of class %d is %.9g, the trees average %.9g; %s", str(q[i]).c_str(), j, (double)o.p[i][j], prob[i][j], D().c_str());
            T lg = std::log(o.p[i][j]);
            if (!(lg == o.lp[i][j] || near(lg, o.lp[i][j], 50 * eps<T>()))) c.fail("forest:log", "log probability %g of %g; %s", (double)o.lp[i][j], (double)o.p[i][j], D().c_str());
        }
        c.out(hvec(o.p[i]));
    }
    return o;
}
template <class T> void same(mc::Ctx &c, const Out<T> &a, const Out<T> &b, const char *what, const std::string &d) {
    if (a.y != b.y) c.fail("forest:repeat", "classes %s and %s differ %s; %s", str(a.y).c_str(), str(b.y).c_str(), what, d.c_str());
    for (size_t i = 0; i < a.p.size(); i++) for (size_t j = 0; j < a.p[i].size(); j++)
        if (!near(a.p[i][j], b.p[i][j], 20 * eps<T>())) c.fail("forest:repeat", "probability %.9g and %.9g %s; %s", (double)a.p[i][j], (double)b.p[i][j], what, d.c_str());
}
template <class T> void forest(mc::Ctx &c, int n, int vals, int m, int nc, int level) {
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y);
    Pts q = grid(vals * 2 - 1, m, 0.5, 0);
    FOpt f; f.boot = c.choose(2, "bootstrap"); f.g.hist = n >= 4 ? c.choose(2, "histogram") : 0; f.fsel = c.choose(level > 1 ? 5 : 2, "features") ;
    f.prop = 0.6; f.nfc = 1; f.g.score = f.fsel % 3; f.g.minn = 1 + f.boot;
    Handle<T> h(da_handle_decision_forest);
    for (int seed = 0; seed < (level ? mc::thorough() ? 3 : 2 : 1); seed++) for (int trees : {1, 2, 3}) {
        f.g.seed = seed * 11; f.trees = trees; f.g.o = column_major; f.g.pad = 0; f.block = 256; f.factor = trees == 2 ? 0.7 : 1;
        f.g.depth = trees == 3 ? 1 : mc::lite() ? 3 : seed == 1 ? 29 : 8;
        Out<T> a = ffit(c, h, f, x, y, nc, q);
        FOpt e = f; e.g.o = row_major; e.g.pad = 1; e.block = 1 + seed;
        same(c, a, ffit(c, h, e, x, y, nc, q), "after a refit with row-major data and another block size", fdesc(e, x, y));
        e = f; e.block = 2; e.g.pad = 2;
        Handle<T> h2(da_handle_decision_forest);
        same(c, a, ffit(c, h2, e, x, y, nc, q), "in a new handle with the same seed", fdesc(e, x, y));
        if (trees == 1 && !f.boot && f.fsel == 0) { // one tree on everything is a decision tree
            Handle<T> ht(da_handle_decision_tree);
            Opt g = f.g; configure(c, ht, g);
            auto X = rowsof<T>(x, g.o, 0), Q = rowsof<T>(q, g.o, 0);
            std::vector<da_int> Y(y.begin(), y.end()), yp(q.size());
            Mat<T> P(q.size(), nc, g.o, 0, (T)0);
            if (da_tree_set_training_data<T>(ht, n, m, nc, X.p(), X.ld, Y.data(), nullptr) || da_tree_fit<T>(ht) || da_tree_predict<T>(ht, q.size(), m, Q.p(), Q.ld, yp.data()) ||
                da_tree_predict_proba<T>(ht, q.size(), m, Q.p(), Q.ld, P.p(), nc, P.ld)) c.fail("forest:tree", "decision tree failed");
            c.op(4);
            for (size_t i = 0; i < q.size(); i++) {
                if (yp[i] != a.y[i]) c.fail("forest:tree", "one-tree forest predicts %d, the tree %d; %s", (int)a.y[i], (int)yp[i], fdesc(f, x, y).c_str());
                for (int j = 0; j < nc; j++) if (!near(P(i, j), a.p[i][j], 20 * eps<T>())) c.fail("forest:tree", "one-tree forest probability %g, the tree %g; %s", (double)a.p[i][j], (double)P(i, j), fdesc(f, x, y).c_str());
            }
        }
    }
}
// categorical features given by the caller, split one from all others
template <class T> void fcats(mc::Ctx &c, int n, int vals, int m, int nc) {
    Pts x; std::vector<int> y;
    multiset(c, n, vals, m, nc, x, y);
    Pts q = grid(vals, m, 1, 0);
    FOpt f; f.g.onevall = true; f.g.minn = 1; f.boot = c.choose(2, "bootstrap"); f.g.cat = 1;
    std::vector<da_int> cat(m, vals);
    Handle<T> h(da_handle_decision_forest);
    for (f.g.seed = 0; f.g.seed < 3; f.g.seed++) for (f.trees = 1; f.trees < 4; f.trees++) ffit(c, h, f, x, y, nc, q, cat);
}
// prediction in many blocks: more rows than the block size, last block partial or full
template <class T> void blocks(mc::Ctx &c) {
    static const Pts x = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}};
    std::vector<int> y(5); for (auto &v : y) v = mc::lite() && &v != &y[0] ? (int)(&v - &y[0]) % 3 : c.choose(3);
    FOpt f; f.boot = 1; f.trees = mc::lite() ? 2 : 5; f.g.minn = 1; f.g.seed = mc::lite() ? 0 : c.choose(mc::thorough() ? 3 : 1);
    Pts base = grid(5, 2, 0.5, 0), q;
    Handle<T> h(da_handle_decision_forest);
    Out<T> ref = ffit(c, h, f, x, y, 3, base);
    for (int nq = 1; nq <= 7; nq++) for (int b = 1; b <= 8; b += mc::lite() ? 3 : 1) for (int o = 0; o < 2; o++) {
        q.assign(base.begin() + nq, base.begin() + 2 * nq);
        FOpt e = f; e.block = b; e.g.o = o ? row_major : column_major; e.g.pad = (nq + b) % 3;
        // the block size and the order may be changed between predictions of the same forest; a fit comes first if the library asks for it
        auto r = ffit(c, h, e, x, y, 3, q);
        for (int i = 0; i < nq; i++) {
            if (r.y[i] != ref.y[nq + i]) c.fail("forest:blocks", "row %d of %d in blocks of %d: class %d, alone %d", i, nq, b, (int)r.y[i], (int)ref.y[nq + i]);
            for (int j = 0; j < 3; j++) if (!near(r.p[i][j], ref.p[nq + i][j], 50 * eps<T>())) c.fail("forest:blocks", "row %d of %d in blocks of %d: probability %g, alone %g", i, nq, b, (double)r.p[i][j], (double)ref.p[nq + i][j]);
        }
    }
}
// wrong class counts and predictions before a fit are refused and nothing is written
template <class T> void refuse(mc::Ctx &c) {
    bool tree = c.choose(2), fitted = c.choose(2); int dn = c.choose(3), what = c.choose(2); auto o = c.choose(2) ? row_major : column_major;
    Pts x = {{0, 0}, {0, 1}, {1, 0}, {1, 1}}; std::vector<da_int> y = {0, 1, 1, 0};
    Handle<T> h(tree ? da_handle_decision_tree : da_handle_decision_forest);
    h.order(c, o);
    auto X = rowsof<T>(x, o, 0);
    if (tree) { da_tree_set_training_data<T>(h, 4, 2, 2, X.p(), X.ld, y.data(), nullptr); if (fitted && da_tree_fit<T>(h)) c.fail("refuse:fit", "fit failed"); }
    else { da_forest_set_training_data<T>(h, 4, 2, 2, X.p(), X.ld, y.data(), nullptr); if (fitted && da_forest_fit<T>(h)) c.fail("refuse:fit", "fit failed"); }
    int nc = 1 + dn;
    Mat<T> P(4, nc, o, 0, (T)-5);
    c.op();
    da_status s = tree ? (what ? da_tree_predict_log_proba<T>(h, 4, 2, X.p(), X.ld, P.p(), nc, P.ld) : da_tree_predict_proba<T>(h, 4, 2, X.p(), X.ld, P.p(), nc, P.ld))
                       : (what ? da_forest_predict_log_proba<T>(h, 4, 2, X.p(), X.ld, P.p(), nc, P.ld) : da_forest_predict_proba<T>(h, 4, 2, X.p(), X.ld, P.p(), nc, P.ld));
    bool good = fitted && nc == 2;
    if (good != (s == da_status_success)) c.fail("refuse:status", "%s of a %s%s for %d classes of 2 gave status %d", what ? "log-probabilities" : "probabilities", fitted ? "" : "untrained ", tree ? "tree" : "forest", nc, (int)s);
    if (!good && !P.all_mark()) c.fail("refuse:written", "refused call wrote the result");
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    add("forest<double>", 5, [=](mc::Ctx &c) { forest<double>(c, l ? 1 : t ? 5 : 4, 2, 2, 2, l ? 0 : t ? 2 : 1); });
    add("forest3<double>", 5, [=](mc::Ctx &c) { forest<double>(c, l ? 2 : t ? 6 : 4, l ? 2 : 3, 1, 2, l ? 0 : 1); });
    add("forestk<float>", 5, [=](mc::Ctx &c) { forest<float>(c, l ? 2 : 4, 2, 1, 3, l ? 0 : 2); });
    add("forestm<double>", 4, [=](mc::Ctx &c) { forest<double>(c, l ? 1 : t ? 4 : 3, 2, 3, 2, l ? 0 : t ? 2 : 1); });
    add("fcats<double>", 4, [=](mc::Ctx &c) { fcats<double>(c, l ? 1 : t ? 4 : 3, t ? 3 : 2, 2, 2); });
    add("blocks<double>", 4, blocks<double>);
    add("refuse<double>", 4, refuse<double>);
    add("refuse<float>", 4, refuse<float>);
}
