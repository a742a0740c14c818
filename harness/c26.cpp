// C26: the bounded quasi-Newton optimiser stays feasible, never goes uphill and is stationary when it says so.
#include "da.hpp"
#include "optimization.hpp"
#include <climits>
using namespace da_dynamic_dispatch_generic;
typedef long double L;
// objective families with integer coefficients: exact enough to differentiate by hand
struct Fun {
    std::string name; int n;
    std::function<L(const L *)> f;
    std::function<void(const L *, L *)> g;
};
static Fun poly(int a, int b, int c, int d, int e, int p, int q) {
    char nm[120]; snprintf(nm, 120, "%dx^4+%dx^2+%dxy+%dy^2+%dy^4+%dx+%dy", a, b, c, d, e, p, q);
    return {nm, 2, [=](const L *x) { return a * x[0] * x[0] * x[0] * x[0] + b * x[0] * x[0] + c * x[0] * x[1] + d * x[1] * x[1] + e * x[1] * x[1] * x[1] * x[1] + p * x[0] + q * x[1]; },
            [=](const L *x, L *g) { g[0] = 4 * a * x[0] * x[0] * x[0] + 2 * b * x[0] + c * x[1] + p; g[1] = c * x[0] + 2 * d * x[1] + 4 * e * x[1] * x[1] * x[1] + q; }};
}
static Fun uni(int a, int b, int p) {
    char nm[80]; snprintf(nm, 80, "%dx^4+%dx^2+%dx", a, b, p);
    return {nm, 1, [=](const L *x) { return a * x[0] * x[0] * x[0] * x[0] + b * x[0] * x[0] + p * x[0]; }, [=](const L *x, L *g) { g[0] = 4 * a * x[0] * x[0] * x[0] + 2 * b * x[0] + p; }};
}
static Fun rosen(int n, int k) {
    return {"rosenbrock" + std::to_string(n) + "x" + std::to_string(k), n,
            [=](const L *x) { L s = 0; for (int i = 0; i + 1 < n; i++) { L t = x[i + 1] - x[i] * x[i], u = 1 - x[i]; s += k * t * t + u * u; } return s; },
            [=](const L *x, L *g) { for (int i = 0; i < n; i++) g[i] = 0; for (int i = 0; i + 1 < n; i++) { L t = x[i + 1] - x[i] * x[i], u = 1 - x[i]; g[i] += -4 * k * t * x[i] - 2 * u; g[i + 1] += 2 * k * t; } }};
}
static Fun sep(std::vector<int> w, std::vector<int> m) { // sum w (x-m)^2, badly scaled
    int n = w.size();
    return {"separable" + std::to_string(n) + "w" + std::to_string(w.back()), n,
            [=](const L *x) { L s = 0; for (int i = 0; i < n; i++) s += w[i] * (x[i] - m[i]) * (x[i] - m[i]); return s; },
            [=](const L *x, L *g) { for (int i = 0; i < n; i++) g[i] = 2 * w[i] * (x[i] - m[i]); }};
}
static Fun expo() { // exp(x)+exp(-2y)+ (x+y)^2: smooth, not a polynomial
    return {"exp", 2, [](const L *x) { return expl(x[0]) + expl(-2 * x[1]) + (x[0] + x[1]) * (x[0] + x[1]); },
            [](const L *x, L *g) { L s = 2 * (x[0] + x[1]); g[0] = expl(x[0]) + s; g[1] = -2 * expl(-2 * x[1]) + s; }};
}
static const std::vector<Fun> &funs(int set) {
    static std::vector<Fun> one, two, big;
    if (one.empty()) {
        for (int a : {0, 1}) for (int b : {-2, 0, 1}) for (int p : {-3, 0, 1, 4}) one.push_back(uni(a, b, p));
        for (int a : {0, 1}) for (int b : {-1, 1, 3}) for (int c : {-2, 0, 1}) for (int d : {-1, 0, 2}) for (int p : {-2, 0, 5}) for (int q : {0, 3}) two.push_back(poly(a, b, c, d, a, p, q));
        two.push_back(rosen(2, 1)); two.push_back(rosen(2, 100)); two.push_back(expo());
        big = {rosen(3, 10), rosen(4, 1), sep({1, 10, 100}, {2, -1, 3}), sep({1, 1, 1, 1}, {0, 1, 2, 3}), sep({1000, 1, 30, 7, 2}, {1, -5, 2, 9, 0})};
    }
    return set == 0 ? one : set == 1 ? two : big;
}
// what a solve did
template <class T> struct Log {
    const Fun *fun; int n;
    std::vector<std::vector<T>> pts, iters; // evaluated points, accepted points seen by the monitor
    std::vector<T> fv, fi, pgi; std::vector<int> itno; std::vector<T> tm;
    int nf = 0, ng = 0, nm = 0, failf = -1, failg = -1, stopm = -1, after = 0;
    bool stopped = false, gradwrong = false, xdiffer = false; std::vector<T> lastx;
};
template <class T> T projected(const std::vector<T> &x, const std::vector<T> &g, const std::vector<T> &l, const std::vector<T> &u) {
    T m = 0;
    for (size_t i = 0; i < x.size(); i++) {
        T gi = g[i];
        if (gi < 0) gi = std::max(x[i] - u[i], gi); else gi = std::min(x[i] - l[i], gi);
        m = std::max(m, std::fabs(gi));
    }
    return m;
}
template <class T> void val(const Fun &f, const T *x, T *v) { L y[8]; for (int i = 0; i < f.n; i++) y[i] = x[i]; *v = (T)f.f(y); }
template <class T> void grd(const Fun &f, const T *x, T *g) { L y[8], h[8]; for (int i = 0; i < f.n; i++) y[i] = x[i]; f.g(y, h); for (int i = 0; i < f.n; i++) g[i] = (T)h[i]; }
// bounds of one variable around a start; INFB stands for "no bound"
struct B { double l, u; };
static const double INF = 1e20;
enum { NONE, OBJ, GRAD, BOTH, MON, NONFINITE };
template <class T> void run(mc::Ctx &c, const Fun &fun, const std::vector<B> &b, const std::vector<double> &x0, int mem, double factr, int maxit, int freq, int inj, int at, bool usebounds, int *calls = nullptr, double tlim = 0) {
    int n = fun.n;
    auto desc = [&]() {
        std::string s = std::string(sizeof(T) == 8 ? "double " : "float ") + fun.name + " memory " + std::to_string(mem) + " factor " + std::to_string(factr) + " limit " + std::to_string(maxit) + " bounds";
        for (auto &q : b) { char t[60]; snprintf(t, 60, " [%g,%g]", q.l, q.u); s += t; }
        s += " from"; for (double v : x0) { char t[30]; snprintf(t, 30, " %g", v); s += t; }
        if (inj) { static const char *nm[] = {"", "objective fails", "gradient fails", "objective and gradient fail", "monitor stops", "objective is not a number"}; s += std::string(", ") + nm[inj] + " at call " + std::to_string(at); }
        return s;
    };
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    da_status st = da_status_success;
    da_optim::da_optimization<T> o(st, err);
    auto must = [&](da_status s, const char *w) { if (s) c.fail("lbfgsb:setup", "%s gives %d: %s", w, (int)s, desc().c_str()); };
    must(st, "constructor");
    std::vector<T> l(n), u(n), x(n);
    for (int i = 0; i < n; i++) l[i] = (T)b[i].l, u[i] = (T)b[i].u, x[i] = (T)x0[i];
    Log<T> g; g.fun = &fun; g.n = n;
    must(o.add_vars(n), "variables");
    if (usebounds) must(o.add_bound_cons(l, u), "bounds");
    int tag = 17; bool badarg = false;
    must(o.add_objfun([&](da_int nn, T *xx, T *v, void *ud) -> da_int {
        if (g.stopped) g.after++;
        g.nf++; if (nn != n || ud != &tag) badarg = true;
        g.pts.emplace_back(xx, xx + n); g.lastx.assign(xx, xx + n);
        val(fun, xx, v); g.fv.push_back(*v);
        if (inj == NONFINITE && g.nf == at) { *v = std::numeric_limits<T>::quiet_NaN(); return 0; }
        if ((inj == OBJ || inj == BOTH) && g.nf == at) { g.stopped = true; *v = 77; return 1; }
        return 0; }), "objective");
    must(o.add_objgrd([&](da_int nn, T *xx, T *v, void *ud, da_int) -> da_int {
        if (g.stopped && inj != OBJ && inj != BOTH) g.after++;
        g.ng++; if (nn != n || ud != &tag) badarg = true;
        if (!std::equal(xx, xx + n, g.lastx.begin())) g.xdiffer = true;
        grd(fun, xx, v);
        if (inj == NONFINITE && g.ng == at) { for (int i = 0; i < n; i++) v[i] = std::numeric_limits<T>::quiet_NaN(); return 0; }
        if ((inj == GRAD || inj == BOTH) && g.ng == at) { g.stopped = true; for (int i = 0; i < n; i++) v[i] = 55; return -3; }
        return 0; }), "gradient");
    must(o.add_monit([&](da_int nn, T *xx, T *gg, T *info, void *ud) -> da_int {
        g.nm++; if (nn != n || ud != &tag) badarg = true;
        g.iters.emplace_back(xx, xx + n); g.fi.push_back(info[da_linmod_info_t::linmod_info_objective]);
        g.pgi.push_back(info[da_linmod_info_t::linmod_info_grad_norm]); g.itno.push_back((int)info[da_linmod_info_t::linmod_info_iter]); g.tm.push_back(info[da_linmod_info_t::linmod_info_time]);
        std::vector<T> w(n); grd(fun, xx, w.data());
        if (inj != NONFINITE && !std::equal(w.begin(), w.end(), gg)) g.gradwrong = true;
        if (inj == MON && g.nm == at) { g.stopped = true; return 1; }
        return 0; }), "monitor");
    T tol = sizeof(T) == 8 ? (T)1e-7 : (T)1e-3;
    must(o.opts.set("print level", (da_int)0), "print level");
    must(o.opts.set("lbfgsb memory limit", (da_int)mem), "memory");
    must(o.opts.set("lbfgsb iteration limit", (da_int)maxit), "limit");
    must(o.opts.set("lbfgsb convergence tol", tol), "tolerance");
    must(o.opts.set("lbfgsb progress factor", (T)factr), "factor");
    must(o.opts.set("monitoring frequency", (da_int)freq), "frequency");
    if (tlim > 0) must(o.opts.set("time limit", (T)tlim), "time limit");
    st = o.solve(x, &tag);
    c.op(); c.out((int)st);
    if (calls) { calls[0] = g.nf; calls[1] = g.nm; }
    if (badarg) c.fail("lbfgsb:arguments", "the callbacks were given a wrong size or user data: %s", desc().c_str());
    if (!usebounds) for (int i = 0; i < n; i++) l[i] = -std::numeric_limits<T>::infinity(), u[i] = std::numeric_limits<T>::infinity();
    else for (int i = 0; i < n; i++) { if (l[i] <= (T)-INF) l[i] = -std::numeric_limits<T>::infinity(); if (u[i] >= (T)INF) u[i] = std::numeric_limits<T>::infinity(); }
    auto inside = [&](const std::vector<T> &p) { for (int i = 0; i < n; i++) if (!(p[i] >= l[i] && p[i] <= u[i])) return false; return true; };
    size_t fin = 0; while (fin < g.fv.size() && std::isfinite(g.fv[fin])) fin++;
    for (size_t k = 0; k < std::min(fin + 1, g.pts.size()); k++) if (std::isfinite(g.pts[k][0]) && std::isfinite(g.pts[k][n - 1])) if (inj != NONFINITE || (int)k < at) if (!inside(g.pts[k])) c.fail("lbfgsb:bounds", "evaluation %zu is at (%.17g%s%.17g) outside the bounds: %s", k + 1, (double)g.pts[k][0], n > 1 ? "," : " ", n > 1 ? (double)g.pts[k][1] : 0., desc().c_str());
    for (T v : g.fv) if (!(std::fabs(v) < (sizeof(T) == 8 ? (T)1e100 : (T)1e30))) { if (st == da_status_success) { T f; val(fun, x.data(), &f); if (!std::isfinite(f)) c.fail("lbfgsb:overflow", "success with objective %g: %s", (double)f, desc().c_str()); } return; } // unbounded problem left the numbers
    if (g.xdiffer) c.fail("lbfgsb:points", "objective and gradient were asked for at different points: %s", desc().c_str());
    if (!inside(x) && !(inj == NONFINITE)) c.fail("lbfgsb:result-bounds", "the result is outside the bounds: %s", desc().c_str());
    // start moved into the box
    std::vector<T> s(n); for (int i = 0; i < n; i++) s[i] = std::min(std::max((T)x0[i], l[i]), u[i]);
    if (!g.pts.empty() && g.pts[0] != s) c.fail("lbfgsb:start", "the first evaluation is not at the start moved into the bounds: %s", desc().c_str());
    T f0, fx; val(fun, s.data(), &f0); val(fun, x.data(), &fx);
    std::vector<T> gx(n); grd(fun, x.data(), gx.data());
    T pg = projected(x, gx, l, u);
    T finfo = o.info[da_linmod_info_t::linmod_info_objective];
    if (g.after) c.fail("lbfgsb:after-stop", "%d calls after a callback asked to stop: %s", g.after, desc().c_str());
    if (inj == OBJ || inj == GRAD || inj == BOTH) {
        if (g.stopped && st != da_status_option_invalid_value) c.fail("lbfgsb:callback-failure", "status %d: %s", (int)st, desc().c_str());
        if (g.stopped) return;
    }
    if (inj == NONFINITE) { if (st == da_status_success && !(pg <= tol)) c.fail("lbfgsb:not-a-number", "success at a point whose projected gradient is %g: %s", (double)pg, desc().c_str()); return; }
    if (g.stopped && st != da_status_optimization_usrstop) c.fail("lbfgsb:user-stop", "status %d: %s", (int)st, desc().c_str());
    if (!(fx <= f0)) c.fail("lbfgsb:uphill", "objective %.17g at the result, %.17g at the start (status %d): %s", (double)fx, (double)f0, (int)st, desc().c_str());
    if (finfo != fx) c.fail("lbfgsb:objective", "reported objective %.17g, at the result it is %.17g (status %d): %s", (double)finfo, (double)fx, (int)st, desc().c_str());
    if ((int)o.info[da_linmod_info_t::linmod_info_nevalf] != g.nf) c.fail("lbfgsb:evaluations", "%d evaluations reported, %d made: %s", (int)o.info[da_linmod_info_t::linmod_info_nevalf], g.nf, desc().c_str());
    // the monitor sees consecutive accepted iterates, each better than the last
    if (g.gradwrong) c.fail("lbfgsb:monitor-gradient", "the monitor is given a gradient that is not the iterate's: %s", desc().c_str());
    T last = f0; std::vector<T> lx = s;
    int total = (int)o.info[da_linmod_info_t::linmod_info_iter];
    if (freq == 0 ? g.nm != 0 : (int)g.iters.size() != total / freq) c.fail("lbfgsb:monitor-calls", "%zu monitor calls for %d iterations with frequency %d: %s", g.iters.size(), total, freq, desc().c_str());
    for (size_t k = 0; k < g.iters.size(); k++) {
        if (g.itno[k] != (int)(k + 1) * freq) c.fail("lbfgsb:monitor-count", "monitor call %zu reports iteration %d: %s", k + 1, g.itno[k], desc().c_str());
        T f; val(fun, g.iters[k].data(), &f);
        if (g.fi[k] != f) c.fail("lbfgsb:monitor-objective", "iteration %d: objective %.17g reported, it is %.17g: %s", g.itno[k], (double)g.fi[k], (double)f, desc().c_str());
        if (!(f <= last)) c.fail("lbfgsb:monitor-uphill", "iteration %d goes uphill from %.17g to %.17g: %s", g.itno[k], (double)last, (double)f, desc().c_str());
        std::vector<T> gk(n); grd(fun, g.iters[k].data(), gk.data());
        T q = projected(g.iters[k], gk, l, u);
        if (g.pgi[k] != q) c.fail("lbfgsb:monitor-norm", "iteration %d: projected gradient %.9g reported, it is %.9g: %s", g.itno[k], (double)g.pgi[k], (double)q, desc().c_str());
        if (q <= tol && (k + 1 < g.iters.size() || (st != da_status_success && !g.stopped && total <= maxit && tlim == 0))) c.fail("lbfgsb:goes-on", "iteration %d meets the convergence tolerance but the solver does not report success (status %d): %s", g.itno[k], (int)st, desc().c_str());
        if (tlim > 0 && g.tm[k] > (T)tlim && (k + 1 < g.iters.size() || st != da_status_maxtime)) c.fail("lbfgsb:time-limit", "iteration %d after %g s with a limit of %g s, status %d: %s", g.itno[k], (double)g.tm[k], tlim, (int)st, desc().c_str());
        last = f; lx = g.iters[k];
    }
    if (total > maxit + 1) c.fail("lbfgsb:limit", "%d iterations with a limit of %d: %s", total, maxit, desc().c_str());
    if (st == da_status_maxit && total <= maxit) c.fail("lbfgsb:limit-early", "iteration limit reported after %d of %d iterations: %s", total, maxit, desc().c_str());
    switch (st) {
    case da_status_success: {
        if (pg <= tol) break;
        // otherwise the objective must have stopped decreasing
        bool flat = false;
        if (freq == 1 && g.fi.size() >= 1) {
            T a = g.fi.size() >= 2 ? g.fi[g.fi.size() - 2] : f0, z = g.fi.back();
            flat = a - z <= (T)factr * std::numeric_limits<T>::epsilon() * std::max({std::fabs(a), std::fabs(z), (T)1});
        } else if (freq != 1 && factr > 0) flat = true;
        if (!flat) c.fail("lbfgsb:not-stationary", "success with projected gradient %.6g, tolerance %.6g: %s", (double)pg, (double)tol, desc().c_str());
        break; }
    case da_status_maxit: case da_status_numerical_difficulties: break;
    case da_status_maxtime: if (tlim > 0) break; // fall through
    case da_status_optimization_usrstop: if (st == da_status_optimization_usrstop && g.stopped) break; // fall through
    default: c.fail("lbfgsb:status", "status %d: %s", (int)st, desc().c_str());
    }
    // convex with a factor of zero and room to work: no excuse in double precision
}
// per-variable bounds to try around the origin
static const std::vector<B> BS = {{-INF, INF}, {0, INF}, {-INF, 1}, {-1, 2}, {1, 1}, {-5, -2}, {-INFINITY, INFINITY}, {0.1, 0.3}};
static const std::vector<double> XS = {0, -3, 2.5, 1};
template <class T> void small1(mc::Ctx &c) {
    auto &F = funs(0);
    const Fun &f = F[c.choose(F.size())];
    B b = c.pick(BS); double x = c.pick(XS);
    int mem = c.choose(2) ? 5 : 1; double factr = c.choose(2) ? 1e7 : 0; int maxit = c.pick(std::vector<int>{200, 1, 3}); int freq = c.choose(3);
    run<T>(c, f, {b}, {x}, mem, factr, maxit, freq, 0, 0, c.choose(2));
}
template <class T> void small2(mc::Ctx &c) {
    auto &F = funs(1);
    const Fun &f = F[c.choose(F.size())];
    bool th = mc::thorough(); bool lt = mc::lite();
    std::vector<B> b2 = th ? BS : std::vector<B>{BS[0], BS[1], BS[3], BS[4], BS[7]};
    if (lt) b2 = {BS[0], BS[3], BS[4]};
    B a = c.pick(b2), b = c.pick(b2);
    double x = c.pick(th ? XS : std::vector<double>{0, -3, 2.5}), y = c.pick(th ? XS : lt ? std::vector<double>{1} : std::vector<double>{0, 1});
    int mem = c.pick(th ? std::vector<int>{1, 2, 11} : std::vector<int>{1, 4}); double factr = th && c.choose(2) ? 1e7 : 0; int maxit = th ? c.pick(std::vector<int>{300, 1, 3}) : 300; int freq = 1;
    run<T>(c, f, {a, b}, {x, y}, mem, factr, maxit, freq, 0, 0, true);
}
template <class T> void more(mc::Ctx &c) {
    auto &F = funs(2);
    const Fun &f = F[c.choose(F.size())];
    std::vector<B> b; std::vector<double> x;
    for (int i = 0; i < f.n; i++) b.push_back(i < 3 ? c.pick(std::vector<B>{BS[0], BS[3], BS[1], BS[5]}) : i == 3 ? c.pick(std::vector<B>{BS[0], BS[4]}) : BS[2]);
    double s = c.pick(std::vector<double>{0, -3, 2.5}); for (int i = 0; i < f.n; i++) x.push_back(s + i * 0.5);
    run<T>(c, f, b, x, c.pick(std::vector<int>{1, 3, 10}), 0, c.pick(std::vector<int>{2000, 2}), 1, 0, 0, true);
}
// every callback call made to fail in turn
template <class T> void faults(mc::Ctx &c) {
    std::vector<const Fun *> F = {&funs(0)[5], &funs(1)[40], &funs(1).back(), &funs(1)[funs(1).size() - 2], &funs(2)[0]};
    const Fun &f = *F[c.choose(F.size())];
    int k = c.choose(3);
    std::vector<B> b(f.n, k == 0 ? BS[0] : k == 1 ? BS[3] : BS[1]); std::vector<double> x(f.n, c.pick(XS));
    int n[2]; run<T>(c, f, b, x, 4, 0, 60, 1, 0, 0, true, n);
    int inj = 1 + c.choose(5);
    int lim = std::min(n[inj == MON], mc::lite() ? 12 : 60);
    int at = 1 + c.choose(lim + 1);
    run<T>(c, f, b, x, 4, 0, 60, 1, inj, at, true);
}
template <class T> void limits(mc::Ctx &c) {
    auto &F = funs(1);
    const Fun &f = F[F.size() - 3 + c.choose(3)];
    int maxit = 1 + c.choose(12);
    B b = c.pick(BS);
    run<T>(c, f, {b, BS[0]}, {-3, 2.5}, 4, 0, maxit, c.choose(4), 0, 0, true, nullptr, c.choose(2) ? 1e-30 : 0);
}
// bounds that describe an empty box, wrong sizes, missing callbacks
template <class T> void setup(mc::Ctx &c) {
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD); da_status st = da_status_success;
    da_optim::da_optimization<T> o(st, err);
    int n = 1 + c.choose(3);
    if (o.add_vars(0) == da_status_success || o.add_vars(-1) == da_status_success) c.fail("lbfgsb:vars", "a problem without variables is accepted");
    o.add_vars(n); o.opts.set("print level", (da_int)0);
    std::vector<T> l(n, -1), u(n, 1);
    int k = c.choose(n), w = c.choose(9);
    T nan = std::numeric_limits<T>::quiet_NaN();
    if (w == 0) l[k] = 2; if (w == 1) l[k] = nan; if (w == 2) u[k] = nan; if (w == 3) u[k] = -2; if (w == 4) l.pop_back(); if (w == 5) u.push_back(1); if (w == 6) u[k] = std::nextafter((T)-1, (T)-2); if (w == 7) l.clear();
    st = o.add_bound_cons(l, u);
    c.op(); c.out((int)st);
    da_status want = w == 4 || w == 5 || w == 7 ? da_status_invalid_input : w == 8 ? da_status_success : da_status_option_invalid_bounds;
    if (st != want) c.fail("lbfgsb:bounds-status", "case %d at variable %d of %d gives %d, not %d", w, k, n, (int)st, (int)want);
    int miss = c.choose(4);
    int nf = 0;
    if (!(miss & 1)) o.add_objfun([&](da_int, T *, T *v, void *) -> da_int { nf++; *v = 0; return 0; });
    if (!(miss & 2)) o.add_objgrd([&](da_int m, T *, T *v, void *, da_int) -> da_int { for (int i = 0; i < m; i++) v[i] = 0; return 0; });
    std::vector<T> x(c.choose(5), 3);
    size_t sx = x.size();
    st = o.solve(x, nullptr);
    if (sx != 0 && (int)sx != n) { if (st != da_status_invalid_input) c.fail("lbfgsb:start-size", "a start of %zu entries for %d variables gives %d", sx, n, (int)st); return; }
    if (miss) { if (st == da_status_success || nf) c.fail("lbfgsb:callbacks", "solving without callbacks (%d) gives %d", miss, (int)st); return; }
    if (w == 8 && st != da_status_success) c.fail("lbfgsb:constant", "a constant objective gives %d", (int)st);
    if ((int)x.size() != n) c.fail("lbfgsb:result-size", "result has %zu entries for %d variables", x.size(), n);
    if (w == 8) for (int i = 0; i < n; i++) if (x[i] != (sx ? 1 : 0)) c.fail("lbfgsb:constant-point", "a constant objective moves the start to %g", (double)x[i]);
}
void mc::register_all() {
    mc::add("one variable", 3, small1<double>);
    mc::add("one variable, float", 3, small1<float>);
    mc::add("two variables", 3, small2<double>);
    if (!mc::lite()) mc::add("two variables, float", 3, small2<float>);
    mc::add("more variables", 3, more<double>);
    mc::add("callback faults", 4, faults<double>);
    mc::add("callback faults, float", 4, faults<float>);
    mc::add("limits", 3, limits<double>);
    mc::add("setup", 3, setup<double>);
    mc::add("setup, float", 3, setup<float>);
}
