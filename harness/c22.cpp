// C22: basic statistics equal their mathematical definitions.
#include "da.hpp"
#include <omp.h>
typedef long double L;
typedef std::vector<double> V;
static const char *AX[] = {"column", "row", "all"};
static const da_axis AXES[] = {da_axis_col, da_axis_row, da_axis_all};
enum { MEAN, GEO, HARM, VAR, SKEW, KURT, MOM, FIVE, STAND, COV, CORR, NF };
static const char *FN[] = {"mean", "geometric_mean", "harmonic_mean", "variance", "skewness", "kurtosis", "moment", "five_point_summary", "standardize", "covariance_matrix", "correlation_matrix"};
// the observations of each statistic
template <class T> std::vector<std::vector<L>> groups(const Mat<T> &X, int axis) {
    std::vector<std::vector<L>> g(axis == 0 ? X.m : axis == 1 ? X.n : 1);
    for (int i = 0; i < X.n; i++) for (int j = 0; j < X.m; j++) g[axis == 0 ? j : axis == 1 ? i : 0].push_back(X(i, j));
    return g;
}
struct Mom { L mean, mag; int n; std::vector<L> x;
    explicit Mom(const std::vector<L> &v) : mean(0), mag(0), n(v.size()), x(v) { for (L a : v) mean += a, mag += fabsl(a); mean /= n; mag /= n; }
    L central(int k, L about) const { L s = 0; for (L a : x) s += powl(a - about, k); return s; }
    L acentral(int k, L about) const { L s = 0; for (L a : x) s += powl(fabsl(a - about), k); return s; }
};
template <class T> struct Run {
    mc::Ctx &c; const Mat<T> &X; int axis, nt; std::string extra;
    std::string desc(const char *f) const {
        char b[200]; snprintf(b, 200, "%s<%s> %s-major %dx%d pad %d along %s threads %d %s", f, sizeof(T) == 8 ? "double" : "float", ordn(X.o), X.n, X.m, X.ld - (X.o == column_major ? X.n : X.m), AX[axis], nt, extra.c_str());
        std::string r = b;
        if (X.n * X.m <= 16) { r += " X="; for (int i = 0; i < X.n; i++) for (int j = 0; j < X.m; j++) r += std::to_string((double)X(i, j)).substr(0, 6) + (j + 1 == X.m ? ";" : ","); }
        return r;
    }
    void ok(const char *f, da_status s) const { c.op(); if (s) c.fail(std::string("stat:") + f + ":status", "status %d: %s", (int)s, desc(f).c_str()); }
    void near(const char *f, const char *what, int i, T got, L want, L tol) const {
        if (!(fabsl((L)got - want) <= tol)) c.fail(std::string("stat:") + f, "%s %d is %.12Lg, by definition %.12Lg (tolerance %.2Lg): %s", what, i, (L)got, want, tol, desc(f).c_str());
    }
    void guard(const char *f, const std::vector<T> &v, size_t n) const { for (size_t i = n; i < v.size(); i++) if (v[i] != (T)-77) c.fail(std::string("stat:") + f + ":overrun", "wrote past its output: %s", desc(f).c_str()); }
};
template <class T> void moments(mc::Ctx &c, const Mat<T> &X, int axis, int nt, bool full = true) {
    Run<T> r{c, X, axis, nt, ""};
    auto g = groups(X, axis);
    size_t ns = g.size(); int n = g[0].size();
    L e = eps<T>();
    L sums = e * 4 * (2 + sqrtl(n)); // pairwise / vectorised summation stays far inside this
    da_axis ax = AXES[axis];
    auto buf = [&] { return std::vector<T>(ns + 2, (T)-77); };
    std::vector<Mom> M; for (auto &v : g) M.emplace_back(v);
    omp_set_num_threads(nt);
    struct Back { ~Back() { omp_set_num_threads(1); } } back;
    auto m = buf();
    r.ok("mean", da_mean<T>(X.o, ax, X.n, X.m, X.p(), X.ld, m.data())); r.guard("mean", m, ns);
    for (size_t i = 0; i < ns; i++) r.near("mean", "mean", i, m[i], M[i].mean, sums * M[i].mag);
    bool neg = false, pos = true; for (auto &v : g) for (L x : v) neg |= x < 0, pos &= x > 0;
    auto q = buf();
    da_status s = da_geometric_mean<T>(X.o, ax, X.n, X.m, X.p(), X.ld, q.data());
    if (neg) { if (s != da_status_negative_data) c.fail("stat:geometric_mean:status", "status %d for negative data: %s", (int)s, r.desc("geometric_mean").c_str()); }
    else {
        r.ok("geometric_mean", s); r.guard("geometric_mean", q, ns);
        for (size_t i = 0; i < ns; i++) {
            L t = 0, a = 0; bool z = false; for (L x : g[i]) if (x == 0) z = true; else t += logl(x), a += fabsl(logl(x));
            r.near("geometric_mean", "geometric mean", i, q[i], z ? 0 : expl(t / n), z ? 0 : expl(t / n) * (sums * a + 8 * e));
        }
    }
    q = buf();
    r.ok("harmonic_mean", da_harmonic_mean<T>(X.o, ax, X.n, X.m, X.p(), X.ld, q.data())); r.guard("harmonic_mean", q, ns);
    for (size_t i = 0; i < ns; i++) {
        L t = 0, a = 0; bool z = false; for (L x : g[i]) if (x == 0) z = true; else t += 1 / x, a += fabsl(1 / x);
        if (z) r.near("harmonic_mean", "harmonic mean", i, q[i], 0, 0); // n / infinity
        else if (fabsl(t) > 4 * sums * a) r.near("harmonic_mean", "harmonic mean", i, q[i], n / t, fabsl(n / t) * (sums * a / fabsl(t) + 4 * e));
    }
    // second and higher moments about a mean that itself carries an error d
    auto tolk = [&](const Mom &w, int k) { L d = sums * w.mag; return sums * k * w.acentral(k, w.mean) + (k >= 1 ? k * w.acentral(k - 1, w.mean) * d : 0) + n * powl(d, k); };
    for (int dof : full ? std::vector<int>{-1, 0, 1, 3} : std::vector<int>{0}) {
        m = buf(); q = buf(); r.extra = "dof " + std::to_string(dof);
        r.ok("variance", da_variance<T>(X.o, ax, X.n, X.m, X.p(), X.ld, dof, m.data(), q.data())); r.guard("variance", m, ns); r.guard("variance", q, ns);
        int d = dof < 0 ? n : dof == 0 ? n - 1 : dof;
        for (size_t i = 0; i < ns; i++) {
            r.near("variance", "mean", i, m[i], M[i].mean, sums * M[i].mag);
            if (d > 0) r.near("variance", "variance", i, q[i], M[i].central(2, M[i].mean) / d, tolk(M[i], 2) / d);
        }
    }
    r.extra = "";
    for (int k = 3; k <= 4; k++) {
        const char *f = k == 3 ? "skewness" : "kurtosis";
        m = buf(); q = buf(); auto w = buf();
        r.ok(f, k == 3 ? da_skewness<T>(X.o, ax, X.n, X.m, X.p(), X.ld, m.data(), q.data(), w.data()) : da_kurtosis<T>(X.o, ax, X.n, X.m, X.p(), X.ld, m.data(), q.data(), w.data()));
        r.guard(f, m, ns), r.guard(f, q, ns), r.guard(f, w, ns);
        for (size_t i = 0; i < ns; i++) {
            L v = M[i].central(2, M[i].mean) / n, h = M[i].central(k, M[i].mean) / n;
            r.near(f, "mean", i, m[i], M[i].mean, sums * M[i].mag);
            r.near(f, "variance", i, q[i], v, tolk(M[i], 2) / n);
            L rel = tolk(M[i], 2) / n;
            if (v > 100 * rel) { L want = h / powl(v, k / 2.0L) - (k == 4 ? 3 : 0); r.near(f, f, i, w[i], want, tolk(M[i], k) / n / powl(v, k / 2.0L) + (fabsl(want) + 3) * (rel / v * k + 8 * e)); }
        }
    }
    for (int k : full ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{2, 3}) for (int pre = 0; pre < 2; pre++) {
        m = buf(); q = buf(); r.extra = "k " + std::to_string(k) + (pre ? " about given means" : "");
        if (pre) for (size_t i = 0; i < ns; i++) m[i] = (T)((int)i - 1);
        auto m0 = m;
        r.ok("moment", da_moment<T>(X.o, ax, X.n, X.m, X.p(), X.ld, k, pre, m.data(), q.data())); r.guard("moment", m, ns), r.guard("moment", q, ns);
        if (pre && m != m0) c.fail("stat:moment:mean", "changed the given means: %s", r.desc("moment").c_str());
        for (size_t i = 0; i < ns; i++) {
            L about = pre ? (L)m0[i] : M[i].mean;
            if (!pre) r.near("moment", "mean", i, m[i], M[i].mean, sums * M[i].mag);
            L d = pre ? 0 : sums * M[i].mag;
            r.near("moment", "moment", i, q[i], M[i].central(k, about) / n, (sums * k * M[i].acentral(k, about) + k * M[i].acentral(k - 1, about) * d) / n + powl(d, k));
        }
    }
    r.extra = "";
}
// the nine definitions; near a jump either side is right
void quant(const std::vector<L> &x /*sorted*/, L q, int type, L e, L &lo, L &hi, L &tol) {
    int n = x.size();
    auto at = [&](L i) { int k = (int)std::clamp<L>(i, 1, n); return x[k - 1]; }; // 1-based
    L h, d;
    switch (type) {
    case 1: case 4: h = n * q; break;
    case 2: case 5: h = n * q + 0.5L; break;
    case 3: h = n * q - 0.5L; break;
    case 6: h = (n + 1) * q; break;
    case 7: h = (n - 1) * q + 1; break;
    case 8: h = (n + 1.0L / 3) * q + 1.0L / 3; break;
    default: h = (n + 0.25L) * q + 3.0L / 8;
    }
    d = 4 * e * (n + 2); lo = HUGE_VALL, hi = -HUGE_VALL;
    auto add = [&](L v) { lo = std::min(lo, v), hi = std::max(hi, v); };
    tol = 0;
    switch (type) {
    case 1: add(at(ceill(h - d))), add(at(ceill(h + d))); break;
    case 2: { L k = roundl(h - 0.5L); // a jump where h - 1/2 is whole: the mean of both; elsewhere one of them
        if (fabsl(h - 0.5L - k) <= d) { add((at(k) + at(k + 1)) / 2); if (fabsl(h - 0.5L - k) > 0 || 1) { if (h - 0.5L != k) add(at(k)), add(at(k + 1)); } tol = 2 * e * std::max(fabsl(lo), fabsl(hi)); }
        else add(at(ceill(h - 0.5L)));
        break; }
    case 3: { L f = floorl(h); if (h - f <= 0.5L + d) add(at(f)); if (h - f >= 0.5L - d) add(at(f + 1)); break; }
    default: {
        auto v = [&](L t) { t = std::clamp<L>(t, 1, n); L f = floorl(t); return at(f) + (t - f) * (at(f + 1) - at(f)); };
        add(v(h - d)), add(v(h + d)), add(v(h));
        tol = 4 * e * std::max(fabsl(x[0]), fabsl(x[n - 1]));
    } }
}
template <class T> void quantiles(mc::Ctx &c, const Mat<T> &X, int axis, const std::vector<T> &q, int type) {
    Run<T> r{c, X, axis, 1, "type " + std::to_string(type) + " q=" + str(q)};
    auto g = groups(X, axis);
    for (auto &v : g) std::sort(v.begin(), v.end());
    int nq = q.size(), ns = g.size();
    Mat<T> Q(nq, ns, X.o, 0, (T)-77); Q.v.resize(Q.v.size() + 2, (T)-77);
    da_status s = da_quantile<T>(X.o, AXES[axis], X.n, X.m, X.p(), X.ld, q.data(), nq, Q.p(), (da_quantile_type)(da_quantile_type_1 + type - 1));
    r.ok("quantile", s); r.guard("quantile", Q.v, nq * ns);
    for (int a = 0; a < nq; a++) for (int i = 0; i < ns; i++) {
        L lo, hi, tol; quant(g[i], q[a], type, eps<T>(), lo, hi, tol);
        L v = Q(a, i);
        if (!(v >= lo - tol && v <= hi + tol)) c.fail("stat:quantile", "quantile %g of group %d is %.12Lg, must be in [%.12Lg,%.12Lg]: %s", (double)q[a], i, v, lo, hi, r.desc("quantile").c_str());
    }
}
template <class T> void five(mc::Ctx &c, const Mat<T> &X, int axis) {
    Run<T> r{c, X, axis, 1, ""};
    auto g = groups(X, axis);
    for (auto &v : g) std::sort(v.begin(), v.end());
    size_t ns = g.size();
    std::vector<T> b[5]; for (auto &v : b) v.assign(ns + 2, (T)-77);
    r.ok("five_point_summary", da_five_point_summary<T>(X.o, AXES[axis], X.n, X.m, X.p(), X.ld, b[0].data(), b[1].data(), b[2].data(), b[3].data(), b[4].data()));
    for (int k = 0; k < 5; k++) { r.guard("five_point_summary", b[k], ns);
        for (size_t i = 0; i < ns; i++) { L lo, hi, tol; quant(g[i], k / 4.0L, 6, eps<T>(), lo, hi, tol); if (!(b[k][i] >= lo - tol && b[k][i] <= hi + tol)) c.fail("stat:five_point_summary", "point %d of group %d is %.12g, must be %.12Lg: %s", k, (int)i, (double)b[k][i], lo, r.desc("five_point_summary").c_str()); } }
}
// shift and scale each: 0 absent, 1 zeros (to be computed), 2 given (a zero scale among them is not used)
template <class T> void stand(mc::Ctx &c, const Mat<T> &X, int axis, int dof, int mode, int sh, int sc) {
    Run<T> r{c, X, axis, 1, "dof " + std::to_string(dof) + " mode " + std::to_string(mode) + " shift " + std::to_string(sh) + " scale " + std::to_string(sc)};
    auto g = groups(X, axis);
    size_t ns = g.size(); int n = g[0].size();
    std::vector<T> S(ns + 2, (T)-77), K(ns + 2, (T)-77);
    for (size_t i = 0; i < ns; i++) S[i] = sh == 2 ? (T)(1 - 2 * (int)i) : (T)0, K[i] = sc == 2 ? (T)(i % 3 == 1 ? 0 : i % 3 == 0 ? 2 : -0.5) : (T)0;
    if (ns == 1 && sh == 2) S[0] = 1;
    auto S0 = S, K0 = K;
    Mat<T> Y = X;
    r.ok("standardize", da_standardize<T>(Y.o, AXES[axis], Y.n, Y.m, Y.p(), Y.ld, dof, mode, sh ? S.data() : nullptr, sc ? K.data() : nullptr));
    if (!Y.pad_ok()) c.fail("stat:standardize:padding", "wrote outside the matrix: %s", r.desc("standardize").c_str());
    r.guard("standardize", S, ns), r.guard("standardize", K, ns);
    L e = eps<T>(); int d = dof < 0 ? n : dof == 0 ? n - 1 : dof;
    std::vector<L> ws(ns), wk(ns), ts(ns), tk(ns);
    for (size_t i = 0; i < ns; i++) {
        Mom M(g[i]); L tm = 8 * e * (M.mag + 1);
        bool both = !sh && !sc;
        ws[i] = sh == 2 ? (L)S0[i] : sh == 1 || both ? M.mean : 0; ts[i] = sh == 1 || both ? tm : 0;
        // deviations about the supplied means; about the computed ones when none are supplied
        L about = sh == 2 ? (L)S0[i] : M.mean;
        L v = d > 0 ? M.central(2, about) / d : M.central(2, about); // no degree of freedom left: only 0 is possible about the mean
        wk[i] = sc == 2 ? (L)K0[i] : sc == 1 || both ? sqrtl(v) : 1; tk[i] = sc == 1 || both ? 16 * e * (wk[i] + 1) : 0;
        if (d <= 0 && sc == 1 && sh == 2) return; // undefined
        if (sh == 1) r.near("standardize", "computed shift", i, S[i], ws[i], ts[i]);
        if (sh == 2 && S[i] != S0[i]) c.fail("stat:standardize:shift", "changed the given shift: %s", r.desc("standardize").c_str());
        if (sc == 1) r.near("standardize", "computed scale", i, K[i], wk[i], tk[i]);
        if (sc == 2 && K[i] != K0[i]) c.fail("stat:standardize:scale", "changed the given scale: %s", r.desc("standardize").c_str());
    }
    for (int i = 0; i < X.n; i++) for (int j = 0; j < X.m; j++) {
        int k = axis == 0 ? j : axis == 1 ? i : 0;
        if (wk[k] != 0 && wk[k] < 2 * tk[k]) continue;
        if (wk[k] == 0 && tk[k] > 0 && ts[k] > 0 && Mom(g[k]).mag != 0 && ws[k] != (L)(T)ws[k]) continue; // rounding of the mean decides whether the deviation is exactly 0
        L sc_ = wk[k] == 0 ? 1 : wk[k], x = X(i, j);
        L want = mode == 0 ? (x - ws[k]) / sc_ : x * sc_ + ws[k];
        L tol = mode == 0 ? (ts[k] + 4 * e * (fabsl(x) + fabsl(ws[k]))) / fabsl(sc_) + fabsl(want) * (tk[k] / fabsl(sc_) + 4 * e) : fabsl(x) * tk[k] + ts[k] + 4 * e * (fabsl(x * sc_) + fabsl(ws[k]));
        if (!(fabsl((L)Y(i, j) - want) <= tol)) c.fail("stat:standardize", "entry %d,%d is %.12Lg, must be %.12Lg (tolerance %.2Lg): %s", i, j, (L)Y(i, j), want, tol, r.desc("standardize").c_str());
    }
}
template <class T> void covcorr(mc::Ctx &c, const Mat<T> &X, int dof, int centred, bool corr, int pad, int nt = 1) {
    const char *f = corr ? "correlation_matrix" : "covariance_matrix";
    Run<T> r{c, X, 0, nt, "dof " + std::to_string(dof) + " assume_centered " + std::to_string(centred)};
    int p = X.m, n = X.n;
    Mat<T> C(p, p, X.o, pad);
    omp_set_num_threads(nt);
    da_status s = corr ? da_correlation_matrix<T>(X.o, n, p, X.p(), X.ld, C.p(), C.ld) : da_covariance_matrix<T>(X.o, n, p, X.p(), X.ld, dof, C.p(), C.ld, centred);
    omp_set_num_threads(1);
    if (n < 2) { c.op(); if (s != da_status_invalid_array_dimension) c.fail("stat:cov:one-row", "status %d for one row", (int)s); return; } // no spread to estimate: refused
    r.ok(f, s);
    if (!C.pad_ok()) c.fail(std::string("stat:") + f + ":padding", "wrote outside the matrix: %s", r.desc(f).c_str());
    auto g = groups(X, 0); std::vector<Mom> M; for (auto &v : g) M.emplace_back(v);
    int d = dof < 0 ? n : dof == 0 ? n - 1 : dof; L e = eps<T>();
    for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) {
        L t = 0, a = 0, vi = M[i].central(2, M[i].mean), vj = M[j].central(2, M[j].mean);
        for (int k = 0; k < n; k++) { L u = centred ? g[i][k] : g[i][k] - M[i].mean, w = centred ? g[j][k] : g[j][k] - M[j].mean; t += u * w; a += (fabsl(g[i][k]) + fabsl(M[i].mean)) * (fabsl(g[j][k]) + fabsl(M[j].mean)); }
        L want, tol = e * (n + 8) * a;
        if (!corr) want = t / d, tol /= d;
        else if (i == j) want = 1, tol = 0;
        else if (vi * vj > 0) want = t / sqrtl(vi * vj), tol = tol / sqrtl(vi * vj) + 4 * e * n;
        else continue; // a constant column has no correlation
        if (!(fabsl((L)C(i, j) - want) <= tol)) c.fail(std::string("stat:") + f, "entry %d,%d is %.12Lg, by definition %.12Lg (tolerance %.2Lg): %s", i, j, (L)C(i, j), want, tol, r.desc(f).c_str());
    }
}
// --- spaces
template <class T> Mat<T> pattern(int n, int m, da_order o, int pad, int pat) {
    Mat<T> X(n, m, o, pad);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { int a = i * 7 + j * 5 + i * j * 3; X(i, j) = (T)(pat == 0 ? a % 9 - 4 : pat == 1 ? 1 + a % 6 : pat == 2 ? 0.1 * (a % 11) + 0.3 : j % 2 ? 5 : a % 4); }
    return X;
}
template <class T> void all_functions(mc::Ctx &c, const Mat<T> &X, int axis, int k) {
    auto hash = hvec(X.v);
    if (k == 0) moments(c, X, axis, 1);
    if (k == 1) { five(c, X, axis); for (int t = 1; t <= 9; t++) quantiles<T>(c, X, axis, {(T)0.75, (T)0, (T)0.5, (T)1, (T)0.1, (T)0.3, (T)0.5}, t); }
    if (k == 2) for (int dof : {-1, 0, 1, 5}) for (int mode = 0; mode < 2; mode++) for (int sh = 0; sh < 3; sh++) for (int sc = 0; sc < 3; sc++) stand(c, X, axis, dof, mode, sh, sc);
    if (k == 3 && axis == 0) for (int pad : {0, 2}) { covcorr(c, X, 0, 0, true, pad); for (int dof : {-1, 0, 1, 5}) for (int cen = 0; cen < 2; cen++) covcorr(c, X, dof, cen, false, pad); }
    if (hvec(X.v) != hash) c.fail("stat:input", "the input matrix was changed");
}
template <class T> void shapes(mc::Ctx &c, int nmax) {
    int n = 1 + c.choose(nmax), m = 1 + c.choose(nmax), o = c.choose(2), pad = c.choose(2) * 2, pat = c.choose(4), axis = c.choose(3), k = c.choose(4);
    all_functions<T>(c, pattern<T>(n, m, o ? row_major : column_major, pad, pat), axis, k);
}
// every vector of small values, as a column, a row, and interleaved in a matrix
template <class T> void values(mc::Ctx &c, int n, V vals) {
    std::vector<double> x(n);
    for (auto &v : x) v = c.pick(vals);
    int lay = c.choose(3), o = c.choose(2), k = c.choose(4);
    da_order od = o ? row_major : column_major;
    Mat<T> X = lay == 0 ? Mat<T>(n, 1, od) : lay == 1 ? Mat<T>(1, n, od) : Mat<T>(n, 2, od, 1);
    for (int i = 0; i < n; i++) { if (lay == 1) X(0, i) = (T)x[i]; else X(i, 0) = (T)x[i]; if (lay == 2) X(i, 1) = (T)x[n - 1 - i]; }
    all_functions<T>(c, X, lay == 1 ? 1 : 0, k);
    if (lay < 2) all_functions<T>(c, X, 2, k);
}
// every sequence of quantile requests on data of every length
template <class T> void requests(mc::Ctx &c, int n, int nq, V qs) {
    int type = 1 + c.choose(9);
    std::vector<T> q(nq);
    for (auto &v : q) v = (T)c.pick(qs);
    for (int pat = 0; pat < 3; pat++) {
        Mat<T> X(n, 2, column_major, pat);
        for (int i = 0; i < n; i++) X(i, 0) = (T)(pat == 0 ? (i * 7 + 3) % n : pat == 1 ? n - i : (i * 3) % 4), X(i, 1) = (T)(pat == 0 ? i : (i * 5 + 1) % n);
        quantiles<T>(c, X, 0, q, type);
        if (pat == 2) quantiles<T>(c, X, 2, q, type);
    }
}
// around the summation blocks and thread partitions
template <class T> void large(mc::Ctx &c, std::vector<int> big, std::vector<int> small) {
    int b = c.pick(big), s = c.pick(small), flip = c.choose(2), o = c.choose(2), axis = c.choose(3), nt = c.pick({1, 3}), what = c.choose(2);
    auto X = pattern<T>(flip ? s : b, flip ? b : s, o ? row_major : column_major, 1, 1);
    if (what == 0) moments(c, X, axis, nt, false);
    else if (!flip && s < 40) covcorr(c, X, 0, 0, axis == 1, 1, nt);
    else quantiles<T>(c, X, axis, {(T)0.5, (T)0.999, (T)0.01}, 7);
}
template <class T> void refused(mc::Ctx &c) {
    int f = c.choose(NF + 1), o = c.choose(2), axis = c.choose(3);
    da_order od = o ? row_major : column_major;
    da_axis ax = AXES[axis];
    Mat<T> X(3, 2, od, 1); X.fill((T)2); X(0, 0) = 1;
    auto X0 = X;
    da_int n = c.pick({3, 0, -1}), m = c.pick({2, 0, -1}), ld = c.pick({0, 1, 2});
    da_int ldx = ld == 0 ? X.ld : ld == 1 ? (o ? 2 : 3) - 1 : -1;
    int nul = c.choose(4); // 0 none, 1 input, 2 first output, 3 last output
    int par = c.choose(3); // a bad value of the particular argument
    std::vector<T> out[5]; for (auto &v : out) v.assign(16, (T)-77);
    T *a = nul == 2 ? nullptr : out[0].data(), *b = out[1].data(), *d = out[2].data(), *x = nul == 1 ? nullptr : X.p();
    T *last = nul == 3 ? nullptr : out[3].data();
    da_status s; std::vector<da_status> ok; bool p = false;
    T q[3] = {(T)0.5, par == 1 ? (T)1.5 : par == 2 ? NANV<T>() : (T)0.25, (T)-0.1}; da_int nq = 2;
    switch (f) {
    case MEAN: if (nul == 3 || par) return; s = da_mean<T>(od, ax, n, m, x, ldx, a); break;
    case GEO: if (nul == 3 || par) return; s = da_geometric_mean<T>(od, ax, n, m, x, ldx, a); break;
    case HARM: if (nul == 3 || par) return; s = da_harmonic_mean<T>(od, ax, n, m, x, ldx, a); break;
    case VAR: if (par) return; s = da_variance<T>(od, ax, n, m, x, ldx, 0, a, last); break;
    case SKEW: if (par) return; s = da_skewness<T>(od, ax, n, m, x, ldx, a, b, last); break;
    case KURT: if (par) return; s = da_kurtosis<T>(od, ax, n, m, x, ldx, a, b, last); break;
    case MOM: p = par; s = da_moment<T>(od, ax, n, m, x, ldx, par ? -par : 2, 0, a, last); break;
    case FIVE: if (par) return; s = da_five_point_summary<T>(od, ax, n, m, x, ldx, a, b, d, out[4].data(), last); break;
    case STAND: if (nul > 1) return; p = par; s = da_standardize<T>(od, ax, n, m, x, ldx, 0, par == 1 ? 2 : par == 2 ? -1 : 0, (T *)nullptr, (T *)nullptr); break;
    case COV: case CORR: {
        if (nul == 3 || axis) return; da_int lc = par ? (par == 1 ? 1 : -1) : 2;
        if (par && m == 2) ok.push_back(da_status_invalid_leading_dimension);
        if (lc < m) ok.push_back(da_status_invalid_leading_dimension);
        s = f == COV ? da_covariance_matrix<T>(od, n, m, x, ldx, 0, a, lc, 0) : da_correlation_matrix<T>(od, n, m, x, ldx, a, lc); break; }
    default: if (nul == 3) return; p = par; if (c.choose(2)) { nq = par ? -par + 1 : 2; q[1] = (T)0.25; } s = da_quantile<T>(od, ax, n, m, x, ldx, q, nq, a, da_quantile_type_7);
    }
    c.op();
    if (n < 1 || m < 1) ok.push_back(da_status_invalid_array_dimension);
    if (nul) ok.push_back(da_status_invalid_pointer);
    if (p) ok.push_back(da_status_invalid_input);
    if (ldx < (o ? m : n)) ok.push_back(da_status_invalid_leading_dimension);
    if (ok.empty()) ok.push_back(da_status_success);
    const char *fn = f == NF ? "quantile" : FN[f];
    if (std::find(ok.begin(), ok.end(), s) == ok.end()) c.fail(std::string("stat:refused:") + fn, "%s %s-major n=%d m=%d ldx=%d null=%d bad argument %d gave status %d", fn, ordn(od), (int)n, (int)m, (int)ldx, nul, par, (int)s);
    if (s) {
        for (auto &v : out) for (T y : v) if (y != (T)-77) c.fail(std::string("stat:refused-wrote:") + fn, "a refused call (status %d) wrote its output", (int)s);
        if (hvec(X.v) != hvec(X0.v)) c.fail(std::string("stat:refused-wrote:") + fn, "a refused call (status %d) changed the matrix", (int)s);
    }
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    add("shapes<double>", 3, [=](mc::Ctx &c) { shapes<double>(c, t ? 7 : l ? 3 : 5); });
    add("shapes<float>", 3, [=](mc::Ctx &c) { shapes<float>(c, t ? 7 : l ? 3 : 5); });
    for (int n = 1; n <= (t ? 6 : l ? 3 : 5); n++) {
        V vals = n > 4 ? V{-2, 0, 3} : V{-2, 0, 1, 3};
        add("values-" + std::to_string(n) + "<double>", 2, [=](mc::Ctx &c) { values<double>(c, n, vals); });
        add("values-" + std::to_string(n) + "<float>", 2, [=](mc::Ctx &c) { values<float>(c, n, vals); });
    }
    V qs{0, 0.1, 0.25, 1.0 / 3, 0.5, 0.6, 0.75, 0.9, 1};
    for (int n : t ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 33, 100} : l ? std::vector<int>{1, 3, 4, 20} : std::vector<int>{1, 2, 3, 4, 5, 7, 8, 10, 20, 40}) {
        add("requests-" + std::to_string(n) + "<double>", 2, [=](mc::Ctx &c) { requests<double>(c, n, l ? 2 : 3, qs); });
        add("requests-" + std::to_string(n) + "<float>", 2, [=](mc::Ctx &c) { requests<float>(c, n, l ? 2 : 3, qs); });
    }
    typedef std::vector<int> I;
    I big = t ? I{1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 4099, 6145, 9001} : l ? I{2049, 4097} : I{1024, 2048, 2049, 4097, 6145}, small = t ? I{1, 2, 3, 8, 31, 33, 65} : l ? I{1, 3} : I{1, 3, 17};
    add("large<double>", 3, [=](mc::Ctx &c) { large<double>(c, big, small); });
    add("large<float>", 3, [=](mc::Ctx &c) { large<float>(c, big, small); });
    add("refused<double>", 3, refused<double>);
    add("refused<float>", 3, refused<float>);
}
