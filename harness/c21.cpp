// C21: cubic splines. A cubic spline is fully determined by: it passes through the data, value, first and second
// derivative agree at the inner sites, and the two stated end conditions hold (or the given derivatives, for
// Hermite). The returned coefficients are checked against exactly these conditions, evaluation against the
// coefficients, and cells against the sites.
#include "da.hpp"
typedef std::vector<double> V;
enum { NAT, CLAMP, CUSTOM, HERM };
static const char *TYPES[] = {"natural", "clamped zero", "custom", "hermite"};
template <class T> struct Data {
    V x; std::vector<V> y, d; // y[dim][site], d[dim][site] (Hermite)
    int type = NAT, lo = 2, ro = 2; V lb, rb;
};
template <class T> std::string desc(const Data<T> &s) {
    std::string r = std::string(TYPES[s.type]) + " sites " + str(s.x) + " values ";
    for (auto &v : s.y) r += str(v);
    if (s.type == HERM) { r += " derivatives "; for (auto &v : s.d) r += str(v); }
    if (s.type == CUSTOM) r += " ends " + std::to_string(s.lo) + str(s.lb) + " " + std::to_string(s.ro) + str(s.rb);
    return r;
}
template <class T> void check_coefs(mc::Ctx &c, const Data<T> &s, const std::vector<T> &co) {
    int n = s.x.size(), m = n - 1;
    double tol = (sizeof(T) == 8 ? 1e-12 : 2e-5) * n;
    for (size_t d = 0; d < s.y.size(); d++) {
        auto C = [&](int i, int k) { return (double)co[d * 4 * m + 4 * i + k]; };
        double ymax = 1, hmin = 1e300, hmax = 0;
        for (auto v : s.y[d]) ymax = std::max(ymax, std::fabs(v));
        if (s.type == HERM) for (auto v : s.d[d]) ymax = std::max(ymax, std::fabs(v));
        if (s.type == CUSTOM) ymax = std::max({ymax, std::fabs(s.lb[d]), std::fabs(s.rb[d])});
        for (int i = 0; i < m; i++) hmin = std::min(hmin, s.x[i + 1] - s.x[i]), hmax = std::max(hmax, s.x[i + 1] - s.x[i]);
        double sc = ymax * std::max(1.0, hmax) * std::max(1.0, hmax);
        double s0 = sc, s1 = sc / std::min(hmin, 1.0), s2 = s1 / std::min(hmin, 1.0); // sizes of value, first, second derivative
        auto D = [&](int i, double h, int k) {
            double a = C(i, 0), b = C(i, 1), e = C(i, 2), f = C(i, 3);
            return k == 0 ? a + h * (b + h * (e + h * f)) : k == 1 ? b + h * (2 * e + 3 * h * f) : 2 * e + 6 * h * f;
        };
        auto bad = [&](const char *key, int i, double got, double want, double scale) {
            if (!(std::fabs(got - want) <= tol * scale))
                c.fail(std::string("spline:") + key, "%s at site %d of dimension %d is %.12g, must be %.12g; %s", key, i, (int)d, got, want, desc(s).c_str());
        };
        for (int i = 0; i < m; i++) {
            double h = s.x[i + 1] - s.x[i];
            bad("value", i, D(i, 0, 0), s.y[d][i], s0);
            bad("value", i + 1, D(i, h, 0), s.y[d][i + 1], s0);
            if (s.type == HERM) {
                bad("given derivative", i, D(i, 0, 1), s.d[d][i], s1);
                bad("given derivative", i + 1, D(i, h, 1), s.d[d][i + 1], s1);
            } else if (i + 1 < m) {
                bad("first derivative from the left", i + 1, D(i, h, 1), D(i + 1, 0, 1), s1);
                bad("second derivative from the left", i + 1, D(i, h, 2), D(i + 1, 0, 2), s2);
            }
        }
        double hl = s.x[m] - s.x[m - 1];
        int lo = s.type == NAT ? 2 : s.type == CLAMP ? 1 : s.lo, ro = s.type == NAT ? 2 : s.type == CLAMP ? 1 : s.ro;
        if (s.type == HERM) continue;
        bad("left end condition", 0, D(0, 0, lo), s.type == CUSTOM ? s.lb[d] : 0, lo == 1 ? s1 : s2);
        bad("right end condition", m, D(m - 1, hl, ro), s.type == CUSTOM ? s.rb[d] : 0, ro == 1 ? s1 : s2);
    }
}
template <class T> std::vector<T> coefs(mc::Ctx &c, Handle<T> &h, int n, int dim) {
    da_int sz = 4 * (n - 1) * dim, want = sz;
    std::vector<T> r(sz);
    da_int one = 0;
    if (da_handle_get_result<T>(h, da_cubic_spline_coefficients, &one, r.data()) != da_status_invalid_array_dimension || one != want)
        c.fail("spline:size", "asking for the coefficients with no room reported size %d, must be %d", (int)one, (int)want);
    if (da_handle_get_result<T>(h, da_cubic_spline_coefficients, &sz, r.data())) c.fail("spline:coefs", "coefficients not available");
    return r;
}
// a cell is right if the point lies in it, or it is the end cell on the side the point is out of range
inline bool cell_ok(const V &x, double q, int j) {
    int n = x.size();
    if (j < 0 || j > n - 2) return false;
    if (q < x[0]) return j == 0;
    if (q > x[n - 1]) return j == n - 2;
    return x[j] <= q && q <= x[j + 1];
}
template <class T> void check_eval(mc::Ctx &c, Handle<T> &h, const Data<T> &s, const std::vector<T> &co, const std::vector<T> &q, const std::vector<da_int> &ord) {
    int n = s.x.size(), m = n - 1, dim = s.y.size(), ne = q.size();
    std::vector<da_int> cells(ne, -9), o2 = ord;
    if (da_interpolation_search_cells<T>(h, ne, q.data(), cells.data())) c.fail("spline:cells", "search_cells refused; %s", desc(s).c_str());
    for (int i = 0; i < ne; i++)
        if (!cell_ok(s.x, q[i], cells[i])) c.fail("spline:cell", "point %.17g is said to lie in cell %d; sites %s", (double)q[i], (int)cells[i], str(s.x).c_str());
    std::vector<T> y(ne * dim * ord.size() + 3, NANV<T>());
    c.op();
    if (da_interpolation_evaluate<T>(h, ne, q.data(), y.data(), ord.size(), o2.data())) c.fail("spline:evaluate", "evaluate refused; %s", desc(s).c_str());
    if (o2 != ord) c.fail("spline:orders", "evaluate changed the array of orders");
    for (int k = 0; k < 3; k++) if (!std::isnan(y[ne * dim * ord.size() + k])) c.fail("spline:overrun", "evaluate wrote past its output");
    for (size_t k = 0; k < ord.size(); k++)
        for (int d = 0; d < dim; d++)
            for (int i = 0; i < ne; i++) {
                bool ok = false;
                double got = y[(k * dim + d) * ne + i], want = 0;
                for (int j = 0; j < m && !ok; j++) {
                    if (!cell_ok(s.x, q[i], j)) continue;
                    auto C = [&](int e) { return (double)co[d * 4 * m + 4 * j + e]; };
                    double hh = (double)(T)(q[i] - (T)s.x[j]);
                    if (ord[k] == 0) want = C(0) + hh * (C(1) + hh * (C(2) + hh * C(3)));
                    if (ord[k] == 1) want = C(1) + hh * (2 * C(2) + 3 * hh * C(3));
                    if (ord[k] == 2) want = 2 * C(2) + 6 * hh * C(3);
                    if (ord[k] == 3) want = 6 * C(3);
                    double sc = 1, a = std::fabs(hh);
                    for (int e = 0; e < 4; e++) sc = std::max(sc, std::fabs(C(e)) * std::pow(std::max(a, 1.0), e));
                    ok = std::fabs(got - want) <= 64 * eps<T>() * sc || (std::isnan(got) && std::isnan(want));
                }
                if (!ok) c.fail("spline:evaluated", "order %d dimension %d at %.9g gives %.12g, the polynomial of its cell %.12g; %s", (int)ord[k], d, (double)q[i], got, want, desc(s).c_str());
            }
    c.out(hvec(y));
}
template <class T> Mat<T> matrix(const std::vector<V> &y, da_order o, int pad) { // n x dim
    Mat<T> a(y[0].size(), y.size(), o, pad);
    for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) a(i, j) = (T)y[j][i];
    return a;
}
template <class T> std::vector<T> queries(const V &x) {
    std::vector<T> q;
    T inf = std::numeric_limits<T>::infinity();
    for (size_t i = 0; i < x.size(); i++) {
        T v = (T)x[i];
        q.push_back(v); q.push_back(std::nextafter(v, -inf)); q.push_back(std::nextafter(v, inf));
        if (i + 1 < x.size()) { T w = (T)x[i + 1]; q.push_back(v + (w - v) / 4); q.push_back(v + (w - v) / 2); }
    }
    q.push_back((T)(x[0] - 1)); q.push_back((T)(x.back() + 1));
    return q;
}
// every value pattern on every site pattern, all types, layouts and padding
template <class T> void values(mc::Ctx &c, int n, std::vector<double> gaps, V vals, int maxdim) {
    Data<T> s;
    s.type = c.choose(4, "type");
    int dim = 1 + c.choose(maxdim, "dim");
    da_order o = c.choose(2, "row") ? row_major : column_major;
    int pad = c.choose(2, "pad");
    bool uni = c.choose(2, "uniform");
    double x0 = uni ? c.pick(V{0, -3}) : -1, h = 1;
    s.x = {x0};
    if (uni) h = c.pick(V{1, 0.5, 4});
    for (int i = 1; i < n; i++) s.x.push_back(s.x.back() + (uni ? h : c.pick(gaps)));
    for (int d = 0; d < dim; d++) {
        s.y.emplace_back();
        // the second dimension repeats the first reversed, with an offset: all patterns appear in both
        for (int i = 0; i < n; i++) s.y[d].push_back(d == 0 ? c.pick(vals) : s.y[0][n - 1 - i] + 5 * d);
        s.d.emplace_back();
        if (s.type == HERM) for (int i = 0; i < n; i++) s.d[d].push_back(d == 0 ? (i == 1 ? c.pick(V{0, 2, -1}) : (i % 2 ? 1 : -2)) : 3 - s.d[0][i]);
        s.lb.push_back(0.75 * (d + 1)); s.rb.push_back(-1.5 * d - 0.5);
    }
    if (s.type == CUSTOM) { s.lo = 1 + c.choose(2, "left order"); s.ro = 1 + c.choose(2, "right order"); }
    Handle<T> H(da_handle_interpolation);
    da_interpolation_select_model<T>(H, interpolation_cubic_spline);
    H.order(c, o);
    std::vector<T> x(s.x.begin(), s.x.end()), lb(s.lb.begin(), s.lb.end()), rb(s.rb.begin(), s.rb.end());
    auto Y = matrix<T>(s.y, o, pad), DD = matrix<T>(s.type == HERM ? s.d : s.y, o, 1 - pad);
    c.op();
    bool early = c.choose(2, "conditions first");
    auto ok = [&](const char *w, da_status st) { if (st) c.fail(std::string("spline:status ") + w, "%s gave status %d; %s", w, (int)st, desc(s).c_str()); };
    ok("sites", uni ? da_interpolation_set_sites_uniform<T>(H, n, (T)s.x[0], (T)s.x[n - 1]) : da_interpolation_set_sites<T>(H, n, x.data()));
    if (early) {
        if (s.type == CUSTOM) ok("boundary", da_interpolation_set_boundary_conditions<T>(H, dim, s.lo, lb.data(), s.ro, rb.data()));
        if (s.type == HERM) ok("derivatives", da_interpolation_set_values<T>(H, n, dim, DD.p(), DD.ld, 1));
    }
    ok("values", da_interpolation_set_values<T>(H, n, dim, Y.p(), Y.ld, 0));
    if (!early) {
        if (s.type == CUSTOM) ok("boundary", da_interpolation_set_boundary_conditions<T>(H, dim, s.lo, lb.data(), s.ro, rb.data()));
        if (s.type == HERM) ok("derivatives", da_interpolation_set_values<T>(H, n, dim, DD.p(), DD.ld, 1));
    }
    if (s.type != CUSTOM) H.must(c, "cubic spline type", TYPES[s.type]);
    ok("interpolate", da_interpolation_interpolate<T>(H));
    auto co = coefs<T>(c, H, n, dim);
    check_coefs<T>(c, s, co);
    auto q = queries<T>(s.x);
    check_eval<T>(c, H, s, co, q, {0, 1, 2, 3});
    if (!Y.pad_ok() || !DD.pad_ok()) c.fail("spline:input", "an input array changed");
}
// every non-empty set and order of requested derivatives
template <class T> void orders(mc::Ctx &c) {
    Data<T> s;
    int dim = 1 + c.choose(3);
    s.x = {0, 1, 3, 4};
    for (int d = 0; d < dim; d++) s.y.push_back({1.0 * d, 2, -1.0 + d, 4});
    std::vector<da_int> ord, left = {0, 1, 2, 3};
    int k = 1 + c.choose(4);
    for (int i = 0; i < k; i++) { int a = c.choose(left.size()); ord.push_back(left[a]); left.erase(left.begin() + a); }
    // the layout of the answer is documented for ascending orders
    if (!std::is_sorted(ord.begin(), ord.end())) c.prune();
    Handle<T> H(da_handle_interpolation);
    da_interpolation_select_model<T>(H, interpolation_cubic_spline);
    std::vector<T> x(s.x.begin(), s.x.end());
    auto Y = matrix<T>(s.y, column_major, 0);
    da_interpolation_set_sites<T>(H, 4, x.data()); da_interpolation_set_values<T>(H, 4, dim, Y.p(), 4, 0);
    if (da_interpolation_interpolate<T>(H)) c.fail("spline:interpolate", "refused");
    auto co = coefs<T>(c, H, 4, dim);
    auto q = queries<T>(s.x);
    q.resize(1 + c.choose((int)q.size()));
    check_eval<T>(c, H, s, co, q, ord);
}
// cells: very uneven gaps, points at, just beside, between and far outside the sites
template <class T> void cells(mc::Ctx &c, int n, V gaps) {
    bool uni = c.choose(2, "uniform");
    Data<T> s;
    Handle<T> H(da_handle_interpolation);
    da_interpolation_select_model<T>(H, interpolation_cubic_spline);
    T x0 = (T)c.pick(V{0, -0.3, 1000.1});
    std::vector<T> x;
    da_status st;
    if (uni) {
        T h = (T)c.pick(gaps);
        int nn = c.pick(std::vector<int>{2, 3, 4, 6, 7, 11, 50});
        T x1 = (T)(x0 + h * (nn - 1));
        if (!(x1 > x0)) c.prune();
        st = da_interpolation_set_sites_uniform<T>(H, nn, x0, x1);
        // the sites as the documentation defines them
        T d = (x1 - x0) / (T)(nn - 1);
        for (int i = 0; i < nn; i++) x.push_back(x0 + i * d);
    } else {
        x.push_back(x0);
        for (int i = 1; i < n; i++) { x.push_back((T)(x.back() + (T)c.pick(gaps))); if (!(x[i] > x[i - 1])) c.prune(); }
        st = da_interpolation_set_sites<T>(H, n, x.data());
    }
    if (st) c.fail("spline:sites", "status %d", (int)st);
    s.x.assign(x.begin(), x.end());
    auto q = queries<T>(s.x);
    T inf = std::numeric_limits<T>::infinity();
    for (double f : {1e6, 1e10, 1e20, 1e38}) { q.push_back((T)f); q.push_back((T)-f); }
    q.push_back(inf); q.push_back(-inf);
    std::vector<da_int> ce(q.size() + 1, -9);
    c.op();
    st = da_interpolation_search_cells<T>(H, q.size(), q.data(), ce.data());
    if (st) c.fail("spline:cells", "search_cells gave status %d", (int)st);
    if (ce.back() != -9) c.fail("spline:cells", "search_cells wrote past its output");
    for (size_t i = 0; i < q.size(); i++) {
        // evenly spaced sites are computed by the library: allow its rounding of a site
        bool ok = cell_ok(s.x, q[i], ce[i]);
        if (uni && !ok && ce[i] >= 0 && ce[i] < (int)x.size() - 1) {
            double t = 4 * eps<T>() * std::max({1.0, std::fabs(s.x[0]), std::fabs(s.x.back())});
            ok = s.x[ce[i]] - t <= q[i] && q[i] <= s.x[ce[i] + 1] + t;
        }
        if (!ok) c.fail("spline:cell", "point %.17g is said to lie in cell %d; %s sites %s", (double)q[i], (int)ce[i], uni ? "uniform" : "given", str(s.x).c_str());
    }
    c.out(hvec(ce));
}
// every history of calls: what is accepted is used, what is refused leaves no trace
template <class T> struct Hist : mc::Machine {
    std::unique_ptr<Handle<T>> h;
    std::string log;
    bool model = false, trained = false, row = false;
    int ns = 0, nv = 0, dv = 0, nd = 0, dd = 0, db = 0, lo = 0, ro = 0, type = NAT, rv = 0, rd = 0;
    std::vector<V> y, dy; V lb, rb; V xs;
    // arrays outlive the handle
    std::vector<std::shared_ptr<Mat<T>>> keep;
    std::vector<T> X3{0, 1, 3}, X4{0, 2, 3, 5}, XB{0, 2, 1}, XB4{0, 1, 1, 2};
    Hist() : h(new Handle<T>(da_handle_interpolation)) {}
    enum { SEL, SELBAD, S3, S4, SB, SB4, U3, V31, V32, V32P, V41, VNULL, VLD, D31, D32, D41, B1, B2, BB, ROW, COL, TN, TC, TCU, TH, INT, EV, NOPS };
    int nops() override { return NOPS; }
    std::string canon() override {
        std::string s;
        for (int v : {(int)model, (int)trained, (int)row, ns, nv, dv, nd, dd, db, lo, ro, type, rv, rd}) s += std::to_string(v) + ",";
        for (auto &v : y) s += str(v);
        s += "|"; for (auto &v : dy) s += str(v);
        return s + str(lb) + str(rb) + str(xs);
    }
    bool apply(int op, mc::Ctx &c) override {
        auto exp = [&](const char *w, da_status st, int must) { // must: 1 succeed, 0 fail, -1 either
            c.op();
            log += std::string(w) + (st ? "! " : " ");
            if (must == 1 && st) c.fail(std::string("spline:refused ") + w, "%s refused with status %d after: %s", w, (int)st, log.c_str());
            if (must == 0 && !st) c.fail(std::string("spline:accepted ") + w, "%s accepted after: %s", w, log.c_str());
            return st == 0;
        };
        auto sites = [&](const char *w, int n, const std::vector<T> &x, bool good, bool uni = false) {
            da_status st = uni ? da_interpolation_set_sites_uniform<T>(*h, n, 0, 2) : da_interpolation_set_sites<T>(*h, n, x.data());
            // sites may be set once; with data already there the number must agree
            int must = model && good && !ns && (!nv || nv == n) && (!nd || nd == n);
            if (exp(w, st, must)) { ns = n; trained = false; xs.clear(); for (int i = 0; i < n; i++) xs.push_back(uni ? i : (double)x[i]); }
        };
        auto vals = [&](const char *w, int n, int dim, int pad, int order, double base) {
            std::vector<V> v(dim, V(n));
            for (int j = 0; j < dim; j++) for (int i = 0; i < n; i++) v[j][i] = base + ((i * 5 + j * 3) % 7) * (order ? -1 : 1);
            auto m = std::make_shared<Mat<T>>(matrix<T>(v, row ? row_major : column_major, pad));
            keep.push_back(m);
            da_status st = da_interpolation_set_values<T>(*h, n, dim, m->p(), m->ld, order);
            int must = !model || (ns && n != ns) ? 0 : (!ns && ((nv && nv != n) || (nd && nd != n))) ? -1 : 1;
            if (exp(w, st, must)) {
                trained = false;
                if (order) { nd = n; dd = dim; dy = v; rd = row; } else { nv = n; dv = dim; y = v; rv = row; }
            }
        };
        auto bc = [&](const char *w, int dim, int l, int r) {
            V a, b;
            for (int j = 0; j < dim; j++) a.push_back(1 + j), b.push_back(-2 * j);
            std::vector<T> A(a.begin(), a.end()), B(b.begin(), b.end());
            da_status st = da_interpolation_set_boundary_conditions<T>(*h, dim, l, A.data(), r, B.data());
            int must = model && (l == 1 || l == 2) && (r == 1 || r == 2) && (!nv || dv == dim);
            if (exp(w, st, must)) { db = dim; lo = l; ro = r; lb = a; rb = b; type = CUSTOM; trained = false; }
        };
        auto opt = [&](int t) {
            h->must(c, "cubic spline type", TYPES[t]);
            log += std::string(TYPES[t]) + " ";
            type = t; trained = false; // an option change asks for the spline to be computed again
        };
        switch (op) {
        case SEL: if (model) return false; if (exp("select", da_interpolation_select_model<T>(*h, interpolation_cubic_spline), 1)) model = true; break;
        case SELBAD: if (model) return false; exp("select-bad", da_interpolation_select_model<T>(*h, (da_interpolation_model)(c.depth() % 2 ? 77 : 78)), 0); break;
        case S3: sites("sites3", 3, X3, true); break;
        case S4: sites("sites4", 4, X4, true); break;
        case SB: if (ns) return false; sites("sites-unsorted", 3, XB, false); break;
        case SB4: if (ns) return false; sites("sites-repeated", 4, XB4, false); break;
        case U3: sites("uniform3", 3, X3, true, true); break;
        case V31: vals("values3x1", 3, 1, 0, 0, 0); break;
        case V32: vals("values3x2", 3, 2, 0, 0, 1); break;
        case V32P: vals("values3x2padded", 3, 2, 2, 0, 2); break;
        case V41: vals("values4x1", 4, 1, 0, 0, 3); break;
        case VNULL: exp("values-null", da_interpolation_set_values<T>(*h, ns ? ns : 3, 1, (const T *)nullptr, 3, 0), 0); break;
        case VLD: { T d[4] = {0, 0, 0, 0}; exp("values-bad-ld", da_interpolation_set_values<T>(*h, ns ? ns : 3, 2, d, 1, 0), 0); break; }
        case D31: vals("derivs3x1", 3, 1, 1, 1, 0); break;
        case D32: vals("derivs3x2", 3, 2, 0, 1, 1); break;
        case D41: vals("derivs4x1", 4, 1, 0, 1, 2); break;
        case B1: bc("ends1", 1, 1, 2); break;
        case B2: bc("ends2", 2, 2, 1); break;
        case BB: bc("ends-bad", 1, 0, 3); break;
        case ROW: if (row) return false; h->order(c, row_major); row = true; trained = false; log += "row "; break;
        case COL: if (!row) return false; h->order(c, column_major); row = false; trained = false; log += "col "; break;
        case TN: if (type == NAT) return false; opt(NAT); break;
        case TC: if (type == CLAMP) return false; opt(CLAMP); break;
        case TCU: if (type == CUSTOM) return false; opt(CUSTOM); break;
        case TH: if (type == HERM) return false; opt(HERM); break;
        case INT: {
            int must = model && ns && nv && (type != CUSTOM || db == dv) && (type != HERM || (dd == dv));
            if (exp("interpolate", da_interpolation_interpolate<T>(*h), must)) trained = true;
            break;
        }
        case EV: {
            T q = (T)0.5, out[8]; da_int o = 0;
            exp("evaluate", da_interpolation_evaluate<T>(*h, 1, &q, out, 1, &o), trained);
            break;
        }
        }
        return true;
    }
    void check(mc::Ctx &c) override {
        if (!model) return;
        da_int d = 1, t = -5;
        if (da_handle_get_result_int(*h, da_trained, &d, &t) == da_status_success && t != (trained ? 1 : 0))
            c.fail("spline:trained", "da_trained says %d, must be %d after: %s", (int)t, (int)trained, log.c_str());
        if (!trained) return;
        Data<T> s; s.x = xs; s.y = y; s.d = dy; s.type = type; s.lo = lo; s.ro = ro; s.lb = lb; s.rb = rb;
        auto co = coefs<T>(c, *h, ns, dv);
        check_coefs<T>(c, s, co);
        check_eval<T>(c, *h, s, co, queries<T>(s.x), {0, 2});
    }
};
void mc::register_all() {
    bool t = thorough(), l = lite();
    auto G = V{1, 3, 0.25};
    auto Y = V{0, 1, -2};
    for (int n = 2; n <= (t ? 6 : l ? 3 : 4); n++) add("values-n" + std::to_string(n) + "<double>", 4, [=](mc::Ctx &c) { values<double>(c, n, G, n > 5 ? V{0, -2} : Y, l || n > 4 ? 2 : 3); });
    for (int n = 2; n <= (t ? 5 : l ? 2 : 4); n++) add("values-n" + std::to_string(n) + "<float>", 4, [=](mc::Ctx &c) { values<float>(c, n, n > 3 ? V{1, 0.5} : G, n > 3 ? V{0, -2} : Y, 2); });
    if (!l) add("values-n7<double>", 4, [=](mc::Ctx &c) { values<double>(c, 7, {2, 0.5}, {1}, 1); });
    add("orders<double>", 2, orders<double>);
    add("orders<float>", 2, orders<float>);
    for (int n = 2; n <= (t ? 7 : l ? 3 : 6); n++) {
        add("cells-n" + std::to_string(n) + "<double>", 3, [=](mc::Ctx &c) { cells<double>(c, n, {1, 0.1, 1e-3, 1e3}); });
        add("cells-n" + std::to_string(n) + "<float>", 3, [=](mc::Ctx &c) { cells<float>(c, n, {1, 0.1, 3e-3, 1e3, 0.7}); });
    }
    add_bfs("history<double>", t ? 7 : l ? 4 : 6, [] { return new Hist<double>; });
    add_bfs("history<float>", t ? 6 : 4, [] { return new Hist<float>; });
}
