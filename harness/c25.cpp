// C25: nonlinear least squares stops only at a stationary point inside the bounds, or says why.
#include "da.hpp"
typedef long double L;
// residual systems with exact derivatives
struct Sys {
    std::string name; int n, m;
    std::function<void(const L *, L *)> r;          // m residuals
    std::function<void(const L *, L *)> J;          // m x n, row by row
    std::function<void(const L *, int, L *)> H;     // Hessian of residual i, n x n
    bool linear = false;
};
static Sys lin(std::vector<std::vector<int>> A, std::vector<int> b) {
    int m = A.size(), n = A[0].size(); Sys s; s.n = n; s.m = m; s.linear = true;
    s.name = "linear"; for (int i = 0; i < m; i++) { s.name += i ? ";" : ":"; for (int v : A[i]) s.name += std::to_string(v) + ","; s.name += "|" + std::to_string(b[i]); }
    s.r = [=](const L *x, L *r) { for (int i = 0; i < m; i++) { r[i] = -b[i]; for (int j = 0; j < n; j++) r[i] += A[i][j] * x[j]; } };
    s.J = [=](const L *, L *J) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) J[i * n + j] = A[i][j]; };
    s.H = [=](const L *, int, L *H) { for (int k = 0; k < n * n; k++) H[k] = 0; };
    return s;
}
static Sys rosen(int k) { Sys s; s.name = "rosenbrock" + std::to_string(k); s.n = 2; s.m = 2;
    s.r = [=](const L *x, L *r) { r[0] = k * (x[1] - x[0] * x[0]); r[1] = 1 - x[0]; };
    s.J = [=](const L *x, L *J) { J[0] = -2 * k * x[0]; J[1] = k; J[2] = -1; J[3] = 0; };
    s.H = [=](const L *, int i, L *H) { H[0] = i == 0 ? -2 * k : 0; H[1] = H[2] = H[3] = 0; };
    return s; }
static Sys expfit(bool three) { // y = a exp(b t) (+ c), five points
    static const int Y[5] = {3, 2, 1, 1, 0}; Sys s; s.n = three ? 3 : 2; s.m = 5; s.name = three ? "exp3" : "exp2"; int n = s.n;
    s.r = [=](const L *x, L *r) { for (int t = 0; t < 5; t++) r[t] = x[0] * expl(x[1] * t / 2) + (n == 3 ? x[2] : 0) - Y[t]; };
    s.J = [=](const L *x, L *J) { for (int t = 0; t < 5; t++) { L e = expl(x[1] * t / 2); J[t * n] = e; J[t * n + 1] = x[0] * e * t / 2; if (n == 3) J[t * n + 2] = 1; } };
    s.H = [=](const L *x, int t, L *H) { for (int k = 0; k < n * n; k++) H[k] = 0; L e = expl(x[1] * t / 2), h = t / (L)2; H[1] = H[n] = e * h; H[n + 1] = x[0] * e * h * h; };
    return s; }
static Sys circle() { // distances to four points
    static const int P[4][2] = {{1, 0}, {0, 2}, {-1, -1}, {2, 2}}; Sys s; s.n = 2; s.m = 4; s.name = "circle";
    s.r = [](const L *x, L *r) { for (int i = 0; i < 4; i++) { L a = x[0] - P[i][0], b = x[1] - P[i][1]; r[i] = a * a + b * b - 2 - i; } };
    s.J = [](const L *x, L *J) { for (int i = 0; i < 4; i++) { J[2 * i] = 2 * (x[0] - P[i][0]); J[2 * i + 1] = 2 * (x[1] - P[i][1]); } };
    s.H = [](const L *, int, L *H) { H[0] = H[3] = 2; H[1] = H[2] = 0; };
    return s; }
static Sys cubic() { Sys s; s.n = 1; s.m = 3; s.name = "cubic"; // r_i = x^3 - i x - c_i
    s.r = [](const L *x, L *r) { L t = x[0]; r[0] = t * t * t - 1; r[1] = t * t * t - t + 2; r[2] = t - 3; };
    s.J = [](const L *x, L *J) { L t = x[0]; J[0] = 3 * t * t; J[1] = 3 * t * t - 1; J[2] = 1; };
    s.H = [](const L *x, int i, L *H) { H[0] = i < 2 ? 6 * x[0] : 0; };
    return s; }
static Sys rational() { // Michaelis-Menten: v x0 s / (x1 + s), positive domain matters
    static const int S[4] = {1, 2, 4, 8}, V[4] = {1, 2, 2, 3}; Sys s; s.n = 2; s.m = 4; s.name = "rational";
    s.r = [](const L *x, L *r) { for (int i = 0; i < 4; i++) r[i] = x[0] * S[i] / (x[1] + S[i]) - V[i]; };
    s.J = [](const L *x, L *J) { for (int i = 0; i < 4; i++) { L d = x[1] + S[i]; J[2 * i] = S[i] / d; J[2 * i + 1] = -x[0] * S[i] / (d * d); } };
    s.H = [](const L *x, int i, L *H) { L d = x[1] + S[i]; H[0] = 0; H[1] = H[2] = -S[i] / (d * d); H[3] = 2 * x[0] * S[i] / (d * d * d); };
    return s; }
static const std::vector<Sys> &systems() {
    static std::vector<Sys> v;
    if (v.empty()) v = {lin({{1}, {2}}, {3, -1}), lin({{1, 0}, {1, 1}, {0, 2}}, {1, 5, -2}), lin({{1, 2}, {3, -1}}, {4, 1}), lin({{1, 0, 2}, {0, 1, 1}, {1, 1, 0}, {2, -1, 1}}, {1, 2, 3, 0}), lin({{1, 1}, {1, 1}, {2, 2}}, {1, 3, 1}), rosen(1), rosen(10), expfit(false), expfit(true), circle(), cubic(), rational(), lin({{0}, {0}}, {1, 2})};
    return v;
}
enum { OK, FAIL_R, FAIL_J, FAIL_H, FAIL_P, NAN_R, NAN_J };
struct U { const Sys *s; bool fortran; bool bad; int cnt[4], inj, at, wrong; bool failed; int after; std::vector<std::vector<double>> pts; };
template <class T> L *up(const T *x, int n) { static L y[8]; for (int i = 0; i < n; i++) y[i] = x[i]; return y; }
#define CHECK(k) U *u = (U *)ud; if (n != u->s->n || m != u->s->m) u->bad = true; if (u->failed) u->after++; u->cnt[k]++;
template <class T> da_int cr(da_int n, da_int m, void *ud, const T *x, T *r) {
    CHECK(0) L o[8]; u->s->r(up(x, n), o); for (int i = 0; i < m; i++) r[i] = (T)o[i];
    u->pts.emplace_back(x, x + n); if (getenv("C25V")) { L q = 0; for (int i = 0; i < m; i++) q += o[i] * o[i]; printf("r %d %.9g %.9g sumsq %.9Lg\n", u->cnt[0], (double)x[0], (double)x[n - 1], q); }
    if (u->inj == NAN_R && u->cnt[0] == u->at) r[m - 1] = std::numeric_limits<T>::quiet_NaN();
    if (u->inj == FAIL_R && u->cnt[0] == u->at) { u->failed = true; return 1; }
    return 0; }
template <class T> da_int cj(da_int n, da_int m, void *ud, const T *x, T *J) {
    CHECK(1) L o[40]; u->s->J(up(x, n), o);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) J[u->fortran ? i + j * m : i * n + j] = (T)o[i * n + j] + (u->wrong == i * n + j + 1 ? 1 : 0);
    if (u->inj == NAN_J && u->cnt[1] == u->at) J[0] = std::numeric_limits<T>::quiet_NaN();
    if (u->inj == FAIL_J && u->cnt[1] == u->at) { u->failed = true; return -7; }
    return 0; }
template <class T> da_int ch(da_int n, da_int m, void *ud, const T *x, const T *f, T *H) {
    CHECK(2) L o[16], a[16] = {0}; L *y = up(x, n); for (int i = 0; i < m; i++) { u->s->H(y, i, o); for (int k = 0; k < n * n; k++) a[k] += (L)f[i] * o[k]; }
    for (int k = 0; k < n * n; k++) H[k] = (T)a[k];
    if (u->inj == FAIL_H && u->cnt[2] == u->at) { u->failed = true; return 3; }
    return 0; }
template <class T> da_int cp(da_int n, da_int m, const T *x, const T *y, T *hp, void *ud) {
    CHECK(3) L o[16]; L *xx = up(x, n); // n x m, column i = H_i y
    for (int i = 0; i < m; i++) { u->s->H(xx, i, o); for (int j = 0; j < n; j++) { L s = 0; for (int k = 0; k < n; k++) s += o[j * n + k] * (L)y[k]; hp[i * n + j] = (T)s; } }
    if (u->inj == FAIL_P && u->cnt[3] == u->at) { u->failed = true; return 3; }
    return 0; }
static const char *MODEL[] = {"hybrid", "gauss-newton", "quasi-newton", "tensor-newton"};
static const char *METHOD[] = {"galahad", "more-sorensen", "aint", "powell-dogleg"};
static const char *GLOB[] = {"trust-region", "regularization"};
struct Cfg { int model = 0, method = 0, glob = 0; bool fortran = false, J = true, H = false, P = false; int box = 0, w = 0, reg = 0, maxit = 200, check = 0; double start = 0; };
struct BB { double l, u; };
static const std::vector<BB> BOX[] = {{}, {{0, 1e20}, {-1e20, 1e20}, {-1, 1}}, {{-1, 0.5}, {-2, 0.25}, {0, 3}}, {{1, 1}, {-5, 5}, {-5, 5}}, {{2, 3}, {-3, -2}, {1, 4}}};
template <class T> da_status run(mc::Ctx &c, const Sys &s, const Cfg &f, int inj, int at, int *calls = nullptr, int wrong = 0, bool nobounds_via_null = false) {
    int n = s.n, m = s.m;
    auto desc = [&]() {
        char b[500]; snprintf(b, 500, "%s %s, model %s, method %s, %s, %s-major%s%s%s, box %d, weights %d, regularisation %d, limit %d, start %g", sizeof(T) == 8 ? "double" : "float", s.name.c_str(), MODEL[f.model], METHOD[f.method], GLOB[f.glob], f.fortran ? "column" : "row", f.J ? "" : ", differences", f.H ? ", Hessian" : "", f.P ? ", products" : "", f.box, f.w, f.reg, f.maxit, f.start);
        std::string r = b; static const char *w[] = {"", "residuals fail", "Jacobian fails", "Hessian fails", "product fails", "residuals not a number", "Jacobian not a number"};
        if (inj) r += std::string(", ") + w[inj] + " at call " + std::to_string(at);
        return r;
    };
    dah::Handle<T> h(da_handle_nlls);
    h.must(c, "print level", getenv("C25V") ? 5 : 0); h.must(c, "ralfit model", MODEL[f.model]); h.must(c, "ralfit nlls method", METHOD[f.method]); h.must(c, "ralfit globalization method", GLOB[f.glob]);
    h.must(c, "storage order", f.fortran ? "column-major" : "row-major"); h.must(c, "ralfit iteration limit", f.maxit);
    T tg = sizeof(T) == 8 ? (T)1e-6 : (T)2e-3, tf = sizeof(T) == 8 ? (T)1e-9 : (T)1e-5;
    h.mustr(c, "ralfit convergence abs tol grd", tg); h.mustr(c, "ralfit convergence abs tol fun", tf);
    h.mustr(c, "ralfit convergence rel tol fun", sizeof(T) == 8 ? 1e-15 : 1e-7); h.mustr(c, "ralfit convergence rel tol grd", sizeof(T) == 8 ? 1e-12 : 1e-7); h.mustr(c, "ralfit convergence step size", sizeof(T) == 8 ? 1e-300 : 1e-37);
    T sigma = f.reg ? (T)0.5 : 0; int pw = f.reg == 2 ? 3 : 2;
    if (f.reg) { h.mustr(c, "regularization term", sigma); h.must(c, "regularization power", f.reg == 2 ? "cubic" : "quadratic"); }
    if (f.check) h.must(c, "check derivatives", "yes");
    U u{&s, f.fortran, false, {0, 0, 0, 0}, inj, at, wrong, false, 0, {}};
    da_status st;
    if constexpr (sizeof(T) == 8) st = da_nlls_define_residuals_d(h, n, m, cr<T>, f.J ? cj<T> : nullptr, f.H ? ch<T> : nullptr, f.P ? cp<T> : nullptr);
    else st = da_nlls_define_residuals_s(h, n, m, cr<T>, f.J ? cj<T> : nullptr, f.H ? ch<T> : nullptr, f.P ? cp<T> : nullptr);
    if (st) c.fail("nlls:setup", "residuals: %d: %s", (int)st, desc().c_str());
    std::vector<T> lo(n, -INFINITY), up_(n, INFINITY), w(m, 1), x(n);
    if (f.box) { for (int i = 0; i < n; i++) lo[i] = (T)BOX[f.box][i].l, up_[i] = (T)BOX[f.box][i].u; }
    for (int i = 0; i < n; i++) x[i] = (T)(f.start + 0.25 * i);
    if (f.box) { if constexpr (sizeof(T) == 8) st = da_nlls_define_bounds_d(h, n, lo.data(), up_.data()); else st = da_nlls_define_bounds_s(h, n, lo.data(), up_.data()); if (st) c.fail("nlls:setup", "bounds: %d: %s", (int)st, desc().c_str()); }
    if (f.w) { for (int i = 0; i < m; i++) w[i] = (T)(f.w == 1 ? 1 + i : 1. / (1 << i)); if constexpr (sizeof(T) == 8) st = da_nlls_define_weights_d(h, m, w.data()); else st = da_nlls_define_weights_s(h, m, w.data()); if (st) c.fail("nlls:setup", "weights: %d: %s", (int)st, desc().c_str()); }
    auto lo0 = lo, up0 = up_; auto w0 = w; auto x0 = x;
    { std::vector<L> q(n), r(m); for (int i = 0; i < n; i++) q[i] = std::min(std::max((L)x[i], (L)lo[i]), (L)up_[i]); s.r(q.data(), r.data()); for (L v : r) if (!(fabsl(v) < 1e15L)) c.prune(); } // the start is a pole
    if constexpr (sizeof(T) == 8) st = da_nlls_fit_d(h, n, x.data(), &u); else st = da_nlls_fit_s(h, n, x.data(), &u);
    c.op(); c.out((int)st);
    if (calls) for (int i = 0; i < 4; i++) calls[i] = u.cnt[i];
    if (u.bad) c.fail("nlls:arguments", "a callback got wrong sizes: %s", desc().c_str());
    if (w != w0) c.fail("nlls:weights", "the weights were changed: %s", desc().c_str());
    auto objective = [&](const T *p, std::vector<L> *g) {
        L r[8], J[40]; L *y = up(p, n); s.r(y, r); s.J(y, J); L o = 0, nx = 0;
        for (int i = 0; i < m; i++) o += (L)w[i] * w[i] * r[i] * r[i];
        for (int j = 0; j < n; j++) nx += y[j] * y[j];
        nx = sqrtl(nx); L F = o / 2 + (f.reg ? sigma / pw * powl(nx, pw) : 0);
        if (g) { g->assign(n, 0); for (int j = 0; j < n; j++) { for (int i = 0; i < m; i++) (*g)[j] += (L)w[i] * w[i] * r[i] * J[i * n + j]; if (f.reg) (*g)[j] += sigma * (pw == 2 ? 1 : nx) * y[j]; } }
        return F;
    };
    auto pnorm = [&](const T *p) { std::vector<L> g; objective(p, &g); L q = 0; for (int j = 0; j < n; j++) { L z = std::min(std::max((L)p[j] - g[j], (L)lo0[j]), (L)up0[j]) - p[j]; q += z * z; } return sqrtl(q); };
    bool usable = st == da_status_success || st == da_status_maxit || st == da_status_optimization_usrstop || st == da_status_numerical_difficulties || st == da_status_maxtime;
    static const std::vector<da_status> known = {da_status_success, da_status_maxit, da_status_optimization_usrstop, da_status_numerical_difficulties, da_status_invalid_option, da_status_operation_failed, da_status_option_invalid_bounds, da_status_bad_derivatives};
    if (std::find(known.begin(), known.end(), st) == known.end()) c.fail("nlls:status", "undocumented status %d: %s", (int)st, desc().c_str());
    if (!usable && !inj && !wrong && !f.check && !(f.model >= 2 || f.method >= 2 || f.glob)) c.fail("nlls:refused", "status %d: %s", (int)st, desc().c_str());
    if (usable) for (int i = 0; i < n; i++) if (!(x[i] >= lo0[i] && x[i] <= up0[i])) c.fail("nlls:bounds", "coefficient %d is %.17g, bounds [%g,%g], status %d: %s", i, (double)x[i], (double)lo0[i], (double)up0[i], (int)st, desc().c_str());
    if (!usable && x != x0 && st != da_status_operation_failed) c.fail("nlls:error-writes", "status %d but the coefficients changed: %s", (int)st, desc().c_str());
    std::vector<T> s0 = x0; for (int i = 0; i < n; i++) s0[i] = std::min(std::max(s0[i], lo0[i]), up0[i]);
    L F0 = objective(s0.data(), nullptr), F = objective(x.data(), nullptr), pg = pnorm(x.data()), pg0 = pnorm(s0.data());
    L e = sizeof(T) == 8 ? 1e-12 : 1e-4;
    if (usable && (!inj || st == da_status_success) && !(F <= F0 * (1 + e) + e)) c.fail("nlls:uphill", "objective %.12Lg at the result, %.12Lg at the start, status %d: %s", F, F0, (int)st, desc().c_str());
    // the information vector
    std::vector<T> info(100, -9); da_int d = 100; da_status q = da_handle_get_result(h.h, da_rinfo, &d, info.data());
    if (usable != (q == da_status_success)) c.fail("nlls:info-status", "status %d but the information query gives %d: %s", (int)st, (int)q, desc().c_str());
    if (usable && !inj) {
        int it = (int)info[info_iter];
        if (it > f.maxit || (st == da_status_maxit && it != f.maxit)) c.fail("nlls:limit", "%d iterations, limit %d, status %d: %s", it, f.maxit, (int)st, desc().c_str());
        if (fabsl(info[info_objective] - F) > (sizeof(T) == 8 ? 1e-9L : 1e-3L) * (1 + F)) c.fail("nlls:objective", "objective %.12g reported, it is %.12Lg, status %d: %s", (double)info[info_objective], F, (int)st, desc().c_str());
        if ((int)info[info_nevalf] != u.cnt[0] || (int)info[info_nevalfd] > u.cnt[0]) c.fail("nlls:count", "%d+%d residual calls reported, %d made: %s", (int)info[info_nevalf], (int)info[info_nevalfd], u.cnt[0], desc().c_str());
        if (f.J && (int)info[info_nevalg] != u.cnt[1]) c.fail("nlls:count-jacobian", "%d Jacobian calls reported, %d made: %s", (int)info[info_nevalg], u.cnt[1], desc().c_str());
        if (f.H && (int)info[info_nevalh] != u.cnt[2]) c.fail("nlls:count-hessian", "%d Hessian calls reported, %d made: %s", (int)info[info_nevalh], u.cnt[2], desc().c_str());
        if (f.J && pg < 1e12L && fabsl(info[info_grad_norm] - pg) > (sizeof(T) == 8 ? 1e-6L : 1e-2L) * (1 + pg)) c.fail("nlls:gradient", "gradient norm %.9g reported, it is %.9Lg, status %d: %s", (double)info[info_grad_norm], pg, (int)st, desc().c_str());
    }
    if (st == da_status_success) {
        L nF = sqrtl(2 * F), nF0 = sqrtl(2 * F0); if (nF0 == 0) nF0 = 1;
        L slack = f.J ? 1.001L : 1.5L, fd = f.J ? 0 : (sizeof(T) == 8 ? 1e-4L : 2e-1L);
        L fp = (sizeof(T) == 8 ? 1e-12L : 1e-4L);
        bool smallf = nF <= slack * std::max((L)tf, (sizeof(T) == 8 ? 1e-15L : 1e-7L) * nF0) + fp;
        bool smallg = pg <= slack * nF * std::max((L)tg, (sizeof(T) == 8 ? 1e-12L : 1e-7L) * pg0 / nF0) + fd * (1 + nF) + fp * (1 + nF);
        if (!smallf && !smallg) c.fail(f.method == 3 && f.reg ? "nlls:not-stationary-dogleg-regularised" : sizeof(T) == 4 && f.method == 2 && u.cnt[0] > 20 ? "nlls:not-stationary-float-aint-collapse" : "nlls:not-stationary", "success with residual norm %.6Lg and projected gradient %.6Lg (limits %g and %.6Lg): %s", nF, pg, (double)tf, nF * tg, desc().c_str());
    }
    return st;
}
static void cfg(mc::Ctx &c, Cfg &f, const Sys &s, bool all) {
    f.model = c.choose(4); f.method = c.choose(4); f.glob = c.choose(2);
    int d = c.choose(f.model == 3 || mc::thorough() ? 4 : 3); // derivatives: Jacobian; differences; Jacobian and Hessian; all three
    f.J = d != 1; f.H = d >= 2; f.P = d == 3; f.fortran = d != 1 ? c.choose(2) : 0;
    (void)s; (void)all;
}
template <class T> void solve(mc::Ctx &c) {
    const Sys &s = systems()[(sizeof(T) == 4 || mc::lite()) && !mc::thorough() ? 2 * c.choose((systems().size() + 1) / 2) : c.choose(systems().size())];
    Cfg f; cfg(c, f, s, true);
    bool fl = sizeof(T) == 4;
    f.box = c.choose(mc::lite() ? 3 : f.glob && !mc::thorough() ? 2 : 5); int e = mc::thorough() ? c.choose(9) : fl || f.box > 2 || f.glob ? 0 : c.choose(4);
    f.w = e % 3; f.reg = e == 3 ? 1 : e / 3; if (e == 3) f.w = 0;
    static const std::pair<double, int> Q[] = {{1, 200}, {0, 2}, {-2, 200}, {0, 300}, {1, 4}, {-2, 1}, {-2, 7}};
    auto q = Q[c.choose(mc::lite() ? 1 : mc::thorough() ? 7 : e ? 2 : 3)]; f.start = q.first; f.maxit = f.model == 3 ? std::min(q.second, 30) : q.second; // (a tensor step solves an inner problem)
    run<T>(c, s, f, OK, 0);
}
// every call of every callback made to fail, and to return something that is not a number
template <class T> void faults(mc::Ctx &c) {
    static const int which[] = {1, 5, 7, 9, 11};
    const Sys &s = systems()[which[(sizeof(T) == 4 && !mc::thorough()) || mc::lite() ? 1 + 2 * c.choose(2) : c.choose(5)]];
    Cfg f; cfg(c, f, s, false);
    f.box = c.choose(3); f.w = c.choose(2); f.start = 1; f.maxit = 40;
    int n[4]; run<T>(c, s, f, OK, 0, n);
    int inj = 1 + c.choose(6); int lim = std::min(n[inj == NAN_R ? 0 : inj == NAN_J ? 1 : inj - 1], mc::thorough() ? 60 : mc::lite() ? 3 : sizeof(T) == 4 ? 4 : 6);
    if (lim == 0) return;
    int at = 1 + c.choose(lim);
    da_status st = run<T>(c, s, f, inj, at);
    if (at == 1 && inj <= FAIL_J && f.J && st == da_status_success) c.fail("nlls:first-call", "success although the callback failed at the start, case %d", inj);
}
// the derivative checker finds every single wrong entry and accepts right ones
template <class T> void checker(mc::Ctx &c) {
    const Sys &s = systems()[c.choose(systems().size())];
    Cfg f; f.fortran = c.choose(2); f.check = 1; f.box = c.choose(3); f.start = c.pick(std::vector<double>{0.5, 1, -1.25});
    int wrong = c.choose(s.n * s.m + 1);
    da_status st = run<T>(c, s, f, OK, 0, nullptr, wrong);
    // a forward difference of the default step has a truncation error: entries where that alone exceeds the checker's documented tolerance are not judged
    auto truncation = [&]() {
        std::vector<L> x(s.n), r(s.m), r2(s.m), J(s.n * s.m); L worst = 0;
        for (int j = 0; j < s.n; j++) x[j] = std::min(std::max((L)(f.start + 0.25 * j), f.box ? (L)BOX[f.box][j].l : -1e20L), f.box ? (L)BOX[f.box][j].u : 1e20L);
        s.r(x.data(), r.data()); s.J(x.data(), J.data());
        for (int j = 0; j < s.n; j++) for (int sg = -1; sg <= 1; sg += 2) { L h = sg * 2.2e-7L * std::max(1.0L, fabsl(x[j])); auto y = x; y[j] += h; s.r(y.data(), r2.data()); for (int i = 0; i < s.m; i++) { L d = (r2[i] - r[i]) / h; worst = std::max(worst, fabsl(d - J[i * s.n + j]) / std::max(fabsl(d), 1e-4L)); } }
        return worst;
    };
    if (wrong == 0 && st == da_status_bad_derivatives && truncation() < 3e-5L) c.fail("nlls:checker-false", "right derivatives of %s are called wrong (%s-major, box %d, start %g)", s.name.c_str(), f.fortran ? "column" : "row", f.box, f.start);
    if (wrong && st != da_status_bad_derivatives) c.fail("nlls:checker-miss", "entry %d of the Jacobian of %s is wrong by one but the check gives %d (%s-major, box %d, start %g)", wrong - 1, s.name.c_str(), (int)st, f.fortran ? "column" : "row", f.box, f.start);
}
// refused input
template <class T> void setup(mc::Ctx &c) {
    const Sys &s = systems()[1]; int n = s.n, m = s.m;
    dah::Handle<T> h(da_handle_nlls); h.must(c, "print level", 0);
    U u{&s, false, false, {0, 0, 0, 0}, 0, 0, 0, false, 0, {}};
    auto def = [&](int a, int b, bool r) { if constexpr (sizeof(T) == 8) return da_nlls_define_residuals_d(h, a, b, r ? cr<T> : nullptr, cj<T>, nullptr, nullptr); else return da_nlls_define_residuals_s(h, a, b, r ? cr<T> : nullptr, cj<T>, nullptr, nullptr); };
    auto bnd = [&](int a, T *l, T *v) { if constexpr (sizeof(T) == 8) return da_nlls_define_bounds_d(h, a, l, v); else return da_nlls_define_bounds_s(h, a, l, v); };
    auto wts = [&](int a, T *l) { if constexpr (sizeof(T) == 8) return da_nlls_define_weights_d(h, a, l); else return da_nlls_define_weights_s(h, a, l); };
    auto fit = [&](int a, T *x) { if constexpr (sizeof(T) == 8) return da_nlls_fit_d(h, a, x, &u); else return da_nlls_fit_s(h, a, x, &u); };
    std::vector<T> x(n, 1), l(n, -1), v(n, 2), w(m, 1); T nan = std::numeric_limits<T>::quiet_NaN();
    int k = c.choose(16); da_status st = da_status_success; bool refuse = true;
    if (k == 0) st = def(0, m, true); else if (k == 1) st = def(n, 0, true); else if (k == 2) st = def(n, m, false); else if (k == 3) st = def(-1, -1, true);
    else {
        if (def(n, m, true)) c.fail("nlls:define", "refused");
        if (k == 4) st = bnd(n + 1, l.data(), v.data()); else if (k == 5) { l[c.choose(n)] = nan; st = bnd(n, l.data(), v.data()); if (!st) st = fit(n, x.data()); }
        else if (k == 6) { l[c.choose(n)] = 3; st = bnd(n, l.data(), v.data()); if (!st) { st = fit(n, x.data()); if (st != da_status_option_invalid_bounds) c.fail("nlls:bounds-status", "lower above upper gives %d", (int)st); } }
        else if (k == 7) st = wts(m - 1, w.data()); else if (k == 8) st = wts(m, nullptr); else if (k == 9) { w[c.choose(m)] = c.pick(std::vector<T>{0, -1, nan}); st = wts(m, w.data()); if (!st) { st = fit(n, x.data()); if (st != da_status_invalid_input && (w == w && st != da_status_operation_failed)) c.fail("nlls:weights-status", "a bad weight gives %d", (int)st); } }
        else if (k == 10) st = fit(n + 1, x.data()); else if (k == 11) st = fit(n, nullptr); else if (k == 12) { x[c.choose(n)] = nan; st = fit(n, x.data()); }
        else if (k == 13) { refuse = false; st = fit(0, nullptr); } // starts from zero
        else if (k == 14) { refuse = false; bnd(n, l.data(), v.data()); wts(m, w.data()); st = bnd(0, nullptr, nullptr); if (!st) st = wts(0, nullptr); l.assign(n, 5); v.assign(n, 4); w.assign(m, -1); if (!st) st = fit(n, x.data()); } // removed again
        else if (k == 15) { refuse = false; st = c.choose(2) ? bnd(n, nullptr, v.data()) : bnd(n, l.data(), nullptr); if (!st) st = fit(n, x.data()); for (int i = 0; i < n; i++) if (x[i] > 1e10) st = da_status_internal_error; }
    }
    c.op(); c.out((int)st);
    if (refuse && (st == da_status_success || (u.cnt[0] && k != 5 && k != 6 && k != 9 && k != 12))) c.fail("nlls:accepts", "bad input %d is accepted (status %d, %d calls)", k, (int)st, u.cnt[0]);
    if (!refuse && st != da_status_success) c.fail("nlls:rejects", "good input %d gives %d", k, (int)st);
    std::vector<T> info(100); da_int d = 100;
    if (refuse && da_handle_get_result(h.h, da_rinfo, &d, info.data()) == da_status_success) c.fail("nlls:stale", "results are given although nothing was fitted (case %d)", k);
}
// the recorded findings, so that they are reported as long as they are there
void recorded(mc::Ctx &c) {
    Cfg f; f.maxit = 200; f.start = 1; f.fortran = true; f.box = 1; f.w = 1; f.method = 2;
    if (c.choose(2)) run<float>(c, systems()[7], f, OK, 0);
    else { Cfg g; g.maxit = 200; g.model = 1; g.method = 3; g.reg = 1; run<double>(c, systems()[0], g, OK, 0); }
}
void mc::register_all() {
    mc::add("recorded findings", 1, recorded);
    mc::add("solve", 6, solve<double>);
    if (!mc::lite()) mc::add("solve, float", 6, solve<float>);
    mc::add("callback faults", 4, faults<double>);
    if (!mc::lite()) mc::add("callback faults, float", 4, faults<float>);
    mc::add("derivative checker", 2, checker<double>);
    mc::add("setup", 2, setup<double>);
    mc::add("setup, float", 2, setup<float>);
}
