// The model kinds that cannot be saved: DBSCAN, nonlinear least squares, interpolation, t-SNE (see models.hpp for the others).
#pragma once
#include "models.hpp"
namespace models {
template <class T> Kind<T> k_dbscan() {
    return {"DBSCAN", da_handle_dbscan,
        [](mc::Ctx &c, Model<T> &m, int) {
            opt(c, m, "algorithm", c.pick(std::vector<const char *>{"brute", "kd tree", "ball tree", "auto"}));
            opt(c, m, "metric", c.pick(std::vector<const char *>{"euclidean", "manhattan"}));
            optr(c, m, "eps", c.pick(std::vector<double>{3, 0.5, 50}));
            opt(c, m, "min samples", c.pick(std::vector<int>{2, 3, 1}));
        },
        [](mc::Ctx &, Model<T> &m) { ST(da_dbscan_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld)); ST(da_dbscan_compute<T>(*m.h)); },
        [](da_handle, Model<T> &, Obs &) {}};
}
// residuals a + b x_i - t_i of the first column of the sample
template <class T> da_int nl_res(da_int, da_int nr, void *u, const T *x, T *r) { Model<T> &m = *(Model<T> *)u; for (int i = 0; i < nr; i++) r[i] = x[0] + x[1] * (T)m.s.x[i][0] - m.t[i]; return 0; }
template <class T> da_int nl_jac(da_int, da_int nr, void *u, const T *, T *J) {
    Model<T> &m = *(Model<T> *)u;
    for (int i = 0; i < nr; i++) { int a = m.o == row_major ? 2 * i : i, b = m.o == row_major ? 2 * i + 1 : nr + i; J[a] = 1; J[b] = (T)m.s.x[i][0]; }
    return 0;
}
template <class T> Kind<T> k_nlls() {
    return {"nonlinear least squares", da_handle_nlls,
        [](mc::Ctx &c, Model<T> &m, int) {
            opt(c, m, "print level", 0);
            opt(c, m, "ralfit model", c.pick(std::vector<const char *>{"gauss-newton", "hybrid"}));
            opt(c, m, "ralfit nlls method", c.pick(std::vector<const char *>{"galahad", "powell-dogleg"}));
            m.keep = c.choose(2) ? (void *)1 : nullptr;
            m.desc += m.keep ? "bounds; " : "";
        },
        [](mc::Ctx &, Model<T> &m) {
            ST(da_nlls_define_residuals<T>(*m.h, 2, m.n(), nl_res<T>, nl_jac<T>, nullptr, nullptr));
            T lo[2] = {-100, -100}, hi[2] = {100, 100};
            if (m.keep) ST(da_nlls_define_bounds<T>(*m.h, 2, lo, hi));
            m.nlx.assign(2, 1); ST(da_nlls_fit<T>(*m.h, 2, m.nlx.data(), &m));
        },
        [](da_handle, Model<T> &m, Obs &o) { o.add("coefficients", da_status_success, m.nlx); }};
}
template <class T> Kind<T> k_interp() {
    return {"cubic spline", da_handle_interpolation,
        [](mc::Ctx &c, Model<T> &m, int) {
            da_status s = da_interpolation_select_model<T>(*m.h, interpolation_cubic_spline);
            if (s) c.fail("spline:model", "selecting the cubic spline gave status %d", (int)s);
            opt(c, m, "cubic spline type", c.pick(std::vector<const char *>{"natural", "clamped zero"}));
            m.keep = c.choose(2) ? (void *)1 : nullptr;
            m.desc += m.keep ? "uniform; " : "";
        },
        [](mc::Ctx &, Model<T> &m) {
            m.t.resize(m.n()); m.qt.clear(); for (int i = 0; i < m.n(); i++) m.qt.push_back(i + (i > 2));
            if (m.keep) ST(da_interpolation_set_sites_uniform<T>(*m.h, m.n(), 0, m.n() - 1)); else ST(da_interpolation_set_sites<T>(*m.h, m.n(), m.qt.data()));
            ST(da_interpolation_set_values<T>(*m.h, m.n(), m.p(), m.X.p(), m.X.ld, 0));
            ST(da_interpolation_interpolate<T>(*m.h));
        },
        [](da_handle h, Model<T> &m, Obs &o) {
            std::vector<T> q = {-1, 0, (T)0.5, 2, (T)2.75, 9}, y(q.size() * 2 * m.p(), -9); da_int ord[2] = {0, 1};
            std::vector<da_int> ce(q.size(), -9);
            da_status s = da_interpolation_search_cells<T>(h, q.size(), q.data(), ce.data()); o.add("cells", s, ce);
            s = da_interpolation_evaluate<T>(h, q.size(), q.data(), y.data(), 2, ord); o.add("evaluate", s, y);
        }};
}
template <class T> Kind<T> k_tsne() {
    return {"t-SNE", da_handle_tsne,
        [](mc::Ctx &c, Model<T> &m, int) {
            opt(c, m, "init", c.pick(std::vector<const char *>{"pca", "random", "supplied"}));
            m.keep = m.desc.find("supplied") != std::string::npos ? (void *)1 : nullptr;
            opt(c, m, "n_components", c.pick(std::vector<int>{2, 1}));
            optr(c, m, "perplexity", 2); opt(c, m, "seed", 3); opt(c, m, "max_iter", 6);
            optr(c, m, "theta", c.pick(std::vector<double>{0, 0.5}));
        },
        [](mc::Ctx &, Model<T> &m) {
            da_int k = 2; da_options_get(*m.h, "n_components", &k);
            ST(da_tsne_set_data(*m.h, m.n(), m.p(), m.X.p(), m.X.ld));
            if (m.keep) {
                m.nlx.assign(m.n() * k, 0); for (size_t i = 0; i < m.nlx.size(); i++) m.nlx[i] = (T)((int)(i * 7 % 5) - 2) / 8;
                ST(da_tsne_set_init_embedding(*m.h, m.nlx.data(), m.o == row_major ? k : (da_int)m.n()));
            }
            ST(da_tsne_compute<T>(*m.h));
        },
        [](da_handle, Model<T> &, Obs &) {}};
}
template <class T> std::vector<Kind<T>> allkinds() {
    auto k = kinds<T>();
    k.push_back(k_dbscan<T>()); k.push_back(k_nlls<T>()); k.push_back(k_interp<T>()); k.push_back(k_tsne<T>());
    return k;
}
}
