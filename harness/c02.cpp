// C02: all short histories of options / data / fit / use on one handle against fresh handles, and calls on the wrong handle.
#include "da.hpp"
#include "models2.hpp"
#include <map>
#include <list>
using namespace models;
struct Opt { const char *name; char t; const char *s; double v; };
template <class T> struct Ops {
    Kind<T> k;
    std::vector<std::vector<Opt>> cfg;
    std::function<da_status(Model<T> &)> D, T_;
    bool lazy = false; // usable as soon as the data are set
};
static Opt S(const char *n, const char *s) { return {n, 's', s, 0}; }
static Opt I(const char *n, int v) { return {n, 'i', "", (double)v}; }
static Opt R(const char *n, double v) { return {n, 'r', "", v}; }
#define LAM [](Model<T> &m) -> da_status
template <class T> std::vector<Ops<T>> all() {
    std::vector<Ops<T>> o;
    o.push_back({k_tree<T>(), {{S("scoring function", "gini"), I("maximum depth", 29), S("histogram", "no")}, {S("scoring function", "entropy"), I("maximum depth", 1), S("histogram", "yes")}},
        LAM { return da_tree_set_training_data(*m.h, m.n(), m.p(), m.s.ncls, m.X.p(), m.X.ld, m.y.data(), (const da_int *)nullptr); }, LAM { return da_tree_fit<T>(*m.h); }});
    o.push_back({k_forest<T>(), {{I("number of trees", 3), I("seed", 5), I("maximum depth", 29), S("histogram", "no")}, {I("number of trees", 2), I("seed", 7), I("maximum depth", 1), S("histogram", "yes")}},
        LAM { return da_forest_set_training_data(*m.h, m.n(), m.p(), m.s.ncls, m.X.p(), m.X.ld, m.y.data(), (const da_int *)nullptr); }, LAM { return da_forest_fit<T>(*m.h); }});
    for (int tree = 0; tree < 2; tree++)
        o.push_back({k_nn<T>(), {{I("number of neighbors", 3), R("radius", 4.5), S("algorithm", tree ? "kd tree" : "brute"), S("weights", "uniform")}, {I("number of neighbors", 2), R("radius", 2.5), S("algorithm", tree ? "ball tree" : "brute"), S("weights", "distance")}},
            LAM { da_status s = da_nn_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); if (!s) s = da_nn_set_labels<T>(*m.h, m.n(), m.y.data()); return s ? s : da_nn_set_targets<T>(*m.h, m.n(), m.t.data()); }, LAM { (void)m; return da_status_success; }, true});
    o.push_back({k_approx<T>(), {{I("n_list", 2), I("n_probe", 1), S("metric", "sqeuclidean"), I("seed", 3), I("number of neighbors", 2)}, {I("n_list", 1), I("n_probe", 1), S("metric", "inner product"), I("seed", 3), I("number of neighbors", 1)}},
        LAM { return da_approx_nn_set_training_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_approx_nn_train_and_add<T>(*m.h); }});
    o.push_back({k_pca<T>(), {{I("n_components", 2), S("pca method", "covariance"), I("store U", 1)}, {I("n_components", 1), S("pca method", "correlation"), I("store U", 0)}},
        LAM { return da_pca_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_pca_compute<T>(*m.h); }});
    o.push_back({k_kpca<T>(), {{S("kernel", "linear"), I("n_components", 2), S("fit inverse transform", "no"), S("copy data", "yes")}, {S("kernel", "rbf"), I("n_components", 1), S("fit inverse transform", "yes"), S("copy data", "no")}},
        LAM { return da_kernel_pca_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_kernel_pca_compute<T>(*m.h); }});
    for (int w = 0; w < 2; w++)
        o.push_back({k_kmeans<T>(), {{S("algorithm", w ? "hartigan-wong" : "lloyd"), I("n_clusters", 2), I("seed", 3), I("n_init", 2), S("initialization method", "k-means++")}, {S("algorithm", w ? "macqueen" : "elkan"), I("n_clusters", 3), I("seed", 3), I("n_init", 1), S("initialization method", "random")}},
            LAM { return da_kmeans_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_kmeans_compute<T>(*m.h); }});
    auto lin = [&](const char *a, double la, const char *b, double lb, double alb, int ib) {
        o.push_back({k_linmod<T>(), {{S("optim method", a), S("scaling", "auto"), R("lambda", la), R("alpha", 0), I("intercept", 1)}, {S("optim method", b), S("scaling", "auto"), R("lambda", lb), R("alpha", alb), I("intercept", ib)}},
            LAM { return da_linmod_define_features(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, m.t.data()); }, LAM { return da_linmod_fit<T>(*m.h); }});
    };
    lin("qr", 0, "cholesky", 1, 0, 0); lin("svd", 1, "coord", 1, 0.5, 1); lin("lbfgs", 1, "sparse_cg", 1, 0, 0);
    auto sv = [&](int w) {
        o.push_back({k_svm<T>(), {{S("kernel", "rbf"), R("c", 1), R("gamma", -1)}, {S("kernel", "linear"), R("c", 0.5), R("gamma", 0.125)}},
            w ? std::function<da_status(Model<T> &)>(LAM { return da_svm_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, m.t.data()); }) : std::function<da_status(Model<T> &)>(LAM { m.t = std::vector<T>(m.s.y.begin(), m.s.y.end()); return da_svm_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, m.t.data()); }),
            LAM { return da_svm_compute<T>(*m.h); }});
    };
    sv(0); sv(1);
    o.push_back({k_dbscan<T>(), {{R("eps", 3), I("min samples", 2), S("algorithm", "brute")}, {R("eps", 6), I("min samples", 3), S("algorithm", "kd tree")}},
        LAM { return da_dbscan_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_dbscan_compute<T>(*m.h); }});
    o.push_back({k_nlls<T>(), {{I("print level", 0), S("ralfit model", "hybrid"), I("ralfit iteration limit", 50)}, {I("print level", 0), S("ralfit model", "gauss-newton"), I("ralfit iteration limit", 40)}},
        LAM { return da_nlls_define_residuals<T>(*m.h, 2, m.n(), nl_res<T>, nl_jac<T>, nullptr, nullptr); }, LAM { m.nlx.assign(2, 1); return da_nlls_fit<T>(*m.h, 2, m.nlx.data(), &m); }});
    o.push_back({k_interp<T>(), {{S("cubic spline type", "natural")}, {S("cubic spline type", "clamped zero")}},
        LAM { m.qt.clear(); for (int i = 0; i < m.n(); i++) m.qt.push_back(i + (i > 2)); da_status s = da_interpolation_set_sites<T>(*m.h, m.n(), m.qt.data()); return s ? s : da_interpolation_set_values<T>(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, 0); },
        LAM { return da_interpolation_interpolate<T>(*m.h); }});
    o.push_back({k_tsne<T>(), {{S("init", "pca"), I("max_iter", 4), R("theta", 0), R("perplexity", 2), I("seed", 3)}, {S("init", "random"), I("max_iter", 3), R("theta", 0.5), R("perplexity", 1.5), I("seed", 3)}},
        LAM { return da_tsne_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld); }, LAM { return da_tsne_compute<T>(*m.h); }});
    return o;
}
template <class T> struct Live { // a handle with every array it has seen
    Model<T> m; std::list<std::pair<Mat<T>, std::vector<T>>> keep; std::list<std::vector<da_int>> keepy; std::list<std::vector<T>> keept;
};
#define KEEP(L) do { (L).keep.emplace_back(std::move((L).m.X), std::move((L).m.t)); (L).keepy.push_back(std::move((L).m.y)); (L).keept.push_back(std::move((L).m.qt)); } while (0)
template <class T> void fill(Live<T> &l, int v) {
    KEEP(l);
    Model<T> &m = l.m; m.s = sample(v);
    m.X = rowsof<T>(m.s.x, m.o, v); m.Q = rowsof<T>(m.s.q, m.o, 1);
    m.t = cast<T>(m.s.t); m.y = ints(m.s.y); m.qy = ints(m.s.qy); m.qt.assign(m.s.qy.begin(), m.s.qy.end());
}
template <class T> da_status setcfg(mc::Ctx &c, Model<T> &m, const std::vector<Opt> &o) {
    for (auto &x : o) { if (x.t == 's') m.h->must(c, x.name, x.s); else if (x.t == 'i') m.h->must(c, x.name, (int)x.v); else m.h->mustr(c, x.name, x.v); }
    return da_status_success;
}
template <class T> void begin(mc::Ctx &c, Ops<T> &k, Live<T> &l) {
    l.m.start(k.k.ht, 0); l.m.o = column_major;
    da_options_set_int(*l.m.h, "seed", 5); // where there is one: the default is random
    if (k.k.ht == da_handle_kernel_pca) da_options_set_int(*l.m.h, "n_components", 2);
    if (k.k.ht == da_handle_tsne) da_options_set<T>(*l.m.h, "perplexity", 2), da_options_set_int(*l.m.h, "max_iter", 4);
    if (k.k.ht == da_handle_approx_nn) da_options_set_int(*l.m.h, "number of neighbors", 2), da_options_set_int(*l.m.h, "n_list", 2);
    if (k.k.ht == da_handle_linmod) { if (da_linmod_select_model<T>(*l.m.h, linmod_model_mse)) c.fail("handle:model", "select"); }
    if (k.k.ht == da_handle_interpolation) { if (da_interpolation_select_model<T>(*l.m.h, interpolation_cubic_spline)) c.fail("handle:model", "select"); }
}
template <class T> void begin_svm(Ops<T> &k, Live<T> &l, int idx, const std::vector<Ops<T>> &ks) {
    if (k.k.ht == da_handle_svm) da_svm_select_model<T>(*l.m.h, idx > 0 && ks[idx - 1].k.ht == da_handle_svm ? svr : svc);
}
static da_status stat(const Obs::E &e) { da_status s; memcpy(&s, e.bytes.data(), sizeof s); return s; }
template <class T> void look(Ops<T> &k, Live<T> &l, Obs &o) { // twice for nearest neighbours: the search changes what can be queried
    if (k.lazy) { Obs w; k.k.probe(*l.m.h, l.m, w); }
    query_all<T>(*l.m.h, o, 2); k.k.probe(*l.m.h, l.m, o);
}
static std::string same(const Obs &a, const Obs &b) {
    if (a.e.size() != b.e.size()) return "different numbers of results";
    for (size_t i = 0; i < a.e.size(); i++) {
        if (stat(a.e[i]) == stat(b.e[i]) && stat(a.e[i])) continue;
        if (a.e[i].bytes != b.e[i].bytes) { Obs x, y; x.e = {a.e[i]}; y.e = {b.e[i]}; return show_diff(x, y); }
    }
    return "";
}
// everything refused, except the question whether the handle is trained
static std::string refused(const Obs &a, bool labels = false) {
    for (auto &e : a.e) {
        if (e.what == "cells" || e.what == "coefficients" || (labels && (e.what == "number of classes" || e.what == "classes" || !e.what.compare(0, 7, "radius ") || e.what.find("result") != std::string::npos))) continue; // the classes are those of the labels, the queries those of the last search
        if (e.what == "integer result 2") { da_int t; memcpy(&t, e.bytes.data() + 4, sizeof t); if (stat(e) || t) return "da_trained gives status " + std::to_string(stat(e)) + ", value " + std::to_string(t); continue; }
        if (!stat(e)) return e.what + " is answered";
    }
    return "";
}
template <class T> void history(mc::Ctx &c, int depth) {
    static std::vector<Ops<T>> ks = all<T>();
    static std::map<int, std::pair<da_status, Obs>> memo;
    int ki = c.choose(ks.size(), "kind");
    Ops<T> &k = ks[ki];
    Live<T> l; begin(c, k, l); begin_svm(k, l, ki, ks);
    std::string hist = k.k.name;
    int cfg = -1, dat = -1, fc = -2, fd = -2; bool lastfail = false, since = false; // since: options were set after the last fit; current configuration and data; those of the last fit
    auto fresh = [&](int cf, int d) -> std::pair<da_status, Obs> & {
        int key = (ki * 4 + cf + 1) * 4 + d;
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        Live<T> f; begin(c, k, f); begin_svm(k, f, ki, ks);
        if (cf >= 0) setcfg(c, f.m, k.cfg[cf]);
        fill(f, d);
        da_status s = k.D(f.m); if (s) c.fail("handle:reference", "%s: setting sample %d gave status %d", k.k.name, d, (int)s);
        s = k.T_(f.m);
        Obs o; if (!s) look(k, f, o);
        return memo[key] = {s, o};
    };
    auto observe = [&] {
        Obs o; look(k, l, o);
        std::string ref = refused(o, k.lazy && dat >= 0);
        if (k.lazy) {
            if (dat < 0) { if (!ref.empty()) c.fail("handle:no-data", "%s: %s without data", hist.c_str(), ref.c_str()); return; }
            std::string d = same(fresh(cfg, dat).second, o);
            if (!d.empty() && !ref.empty()) c.fail("handle:stale", "%s: neither refused (%s) nor the answer of a fresh handle (%s)", hist.c_str(), ref.c_str(), d.c_str());
            return;
        }
        if (fd < 0 || lastfail) { if (!ref.empty()) c.fail("handle:not-computed", "%s: %s though there is no model", hist.c_str(), ref.c_str()); return; }
        std::string d = same(fresh(fc, fd).second, o);
        // the handles that mark their model as out of date when an option is set must keep doing so; the others keep it
        bool marks = k.k.ht != da_handle_kmeans && k.k.ht != da_handle_decision_forest && k.k.ht != da_handle_pca && k.k.ht != da_handle_kernel_pca && k.k.ht != da_handle_linmod && k.k.ht != da_handle_approx_nn;
        if (!since && !d.empty()) c.fail("handle:result", "%s: differs from a fresh handle: %s", hist.c_str(), d.c_str());
        if (since && marks && !ref.empty()) c.fail("handle:stale", "%s: %s though the options changed since the fit", hist.c_str(), ref.c_str());
        if (since && fresh(fc, fd).second.e.size() == o.e.size()) { // every answer is refused or the fitted model's
            Obs a = fresh(fc, fd).second, b = o; size_t w = 0;
            for (size_t i = 0; i < o.e.size(); i++) if (!stat(o.e[i])) { a.e[w] = a.e[i]; b.e[w++] = o.e[i]; }
            a.e.resize(w); b.e.resize(w); d = same(a, b);
        }
        if (since && !ref.empty() && !d.empty()) c.fail("handle:mixture", "%s: neither refused (%s) nor the fitted model's answers (%s)", hist.c_str(), ref.c_str(), d.c_str());
    };
    int len = 1 + c.choose(depth, "length");
    for (int i = 0; i < len; i++) {
        int op = c.choose(7, "op"); c.op();
        if (op < 2) { hist += op ? " O1" : " O0"; setcfg(c, l.m, k.cfg[op]); cfg = op; since = true; l.m.nlx.clear(); }
        else if (op < 4) {
            hist += op == 3 ? " D1" : " D0"; fill(l, op - 2);
            da_status s = k.D(l.m);
            if (s) {
                // a nearest neighbours handle keeps the number of samples it was given first
                if (k.lazy && dat >= 0 && dat != op - 2) { c.prune(); return; }
                if (k.k.ht == da_handle_interpolation && dat >= 0 && s == da_status_invalid_input) { c.prune(); return; } // the sites cannot be changed
                c.fail("handle:data", "%s: status %d", hist.c_str(), (int)s);
            }
            dat = op - 2; fd = -1; l.m.nlx.clear();
        } else if (op == 4) {
            hist += " T";
            da_status s = k.T_(l.m);
            if (k.lazy) continue;
            if (dat < 0) { if (!s) c.fail("handle:fit-without-data", "%s: success", hist.c_str()); continue; }
            if (s != fresh(cfg, dat).first) c.fail("handle:refit", "%s: status %d, a fresh handle gives %d", hist.c_str(), (int)s, (int)fresh(cfg, dat).first);
            fc = cfg; fd = dat; lastfail = s != 0; since = false;
        } else if (op == 5) { hist += " Q"; observe(); }
        else { // calls that must be refused and change nothing
            hist += " X"; da_handle h = *l.m.h;
            T z[8] = {0}; da_int zi[8] = {0};
            da_status s[5] = {da_options_set_string(h, "storage order", "diagonal"), da_options_set_int(h, "no such option", 3),
                k.k.ht == da_handle_pca ? da_kmeans_set_data<T>(h, 2, 2, z, 2) : da_pca_set_data<T>(h, 2, 2, z, 2),
                k.k.ht == da_handle_pca ? da_kmeans_compute<T>(h) : da_pca_compute<T>(h), k.k.ht == da_handle_nn ? da_tree_predict<T>(h, 1, 1, z, 1, zi) : da_nn_classifier_predict<T>(h, 1, 1, z, 1, zi, knn_search_mode)};
            for (int j = 0; j < 5; j++) if (!s[j] || (j > 1 && s[j] != da_status_invalid_handle_type)) c.fail("handle:bad-call", "%s: bad call %d gave status %d", hist.c_str(), j, (int)s[j]);
        }
    }
    hist += " Q"; observe();
}
// every call of every kind on a handle of another kind, of another precision, on no handle and on a destroyed one
template <class T, class O> void foreign(mc::Ctx &c) {
    static std::vector<Ops<T>> ks = all<T>(); static std::vector<Ops<O>> os = all<O>();
    int a = c.choose(ks.size(), "kind"), b = c.choose(os.size(), "other"), trained = c.choose(2, "trained"), none = c.choose(3, "handle");
    Live<T> l; begin(c, ks[a], l); begin_svm(ks[a], l, a, ks); fill(l, 0);
    if (trained) { da_status s = ks[a].D(l.m); if (!s) s = ks[a].T_(l.m); if (s) c.fail("handle:reference", "training a %s handle failed: %d", ks[a].k.name, (int)s); }
    if (std::is_same_v<T, O> && ks[a].k.ht == os[b].k.ht && !none) return;
    Obs before, after; if (trained) look(ks[a], l, before);
    Live<O> m; begin(c, os[b], m); begin_svm(os[b], m, b, os); fill(m, 0);
    da_handle own = m.m.h->h;
    m.m.h->h = none ? nullptr : l.m.h->h;
    da_handle gone = nullptr; if (none == 2) { da_handle_init<T>(&gone, ks[a].k.ht); da_handle_destroy(&gone); if (gone) { m.m.h->h = own; c.fail("handle:destroy", "destroying leaves the handle set"); } }
    Obs o; da_status s1 = os[b].D(m.m), s2 = os[b].lazy ? da_status_success : os[b].T_(m.m);
    os[b].k.probe(m.m.h->h, m.m, o);
    m.m.h->h = own;
    da_status want = none ? da_status_handle_not_initialized : !std::is_same_v<T, O> ? da_status_wrong_type : da_status_invalid_handle_type;
    if (s1 != want || (!os[b].lazy && s2 != want)) c.fail("handle:foreign", "%s calls on %s: status %d and %d, expected %d", os[b].k.name, none ? "no handle" : ks[a].k.name, (int)s1, (int)s2, (int)want);
    for (auto &e : o.e) if (e.what != "coefficients" && e.what.compare(0, 7, "integer") && e.what.compare(0, 6, "result") && e.what.compare(0, 7, "radius ") && stat(e) != want) c.fail("handle:foreign-use", "%s of a %s on %s gave status %d, expected %d", e.what.c_str(), os[b].k.name, none ? "no handle" : ks[a].k.name, (int)stat(e), (int)want);
    if (trained) { look(ks[a], l, after); std::string d = same(before, after); if (!d.empty()) c.fail("handle:foreign-trace", "%s calls changed a %s handle: %s", os[b].k.name, ks[a].k.name, d.c_str()); }
}
void mc::register_all() {
    mc::add("foreign", 2, [](mc::Ctx &c) { foreign<double, double>(c); });
    mc::add("foreign precision", 2, [](mc::Ctx &c) { foreign<double, float>(c); });
    if (!mc::lite()) mc::add("foreign precision single", 2, [](mc::Ctx &c) { foreign<float, double>(c); });
    mc::add("history double", 3, [](mc::Ctx &c) { history<double>(c, mc::thorough() ? 6 : mc::lite() ? 3 : 5); });
    if (!mc::lite()) mc::add("history single", 3, [](mc::Ctx &c) { history<float>(c, mc::thorough() ? 5 : 4); });
}
