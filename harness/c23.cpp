// C23: pairwise distances and kernel matrices equal their definitions, entry by entry, for every shape around the
// blocking and vector widths, both storage orders, padded or not, one matrix or two, one thread or several.
#include "da.hpp"
#include <omp.h>
typedef long double L;
struct Shape { int m, n, k, padx, pady, padd, nt; bool ynull; da_order o; int pat; };
template <class T> T val(int pat, int which, int i, int j) {
    int a = which ? (i * 5 + j * 7 + 3 + i * j * 2) : (i * 7 + j * 5 + i * j * 3 + 1);
    switch (pat) {
    case 0: return (T)(a % 9 - 4);                                   // small integers: sums are exact
    case 1: return i % 5 == 2 ? (T)0 : (T)(a % 7 - 3);               // with zero rows
    case 2: return (T)((a % 3 - 1) * 0.5 + (j == 0 ? 2 : 0));        // near-parallel rows
    default: return (T)((a % 11 - 5) * 0.1);
    }
}
struct Fn { int f; double p, gamma, coef0; int degree; bool kernel; };
static const char *FN[] = {"euclidean", "sqeuclidean", "manhattan", "minkowski", "cosine", "euclidean_gemm", "sqeuclidean_gemm", "inner_product", "rbf", "linear", "polynomial", "sigmoid"};
static const da_metric METRIC[] = {da_euclidean, da_sqeuclidean, da_manhattan, da_minkowski, da_cosine, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product};
template <class T> da_status call(const Fn &f, da_order o, da_int m, da_int n, da_int k, const T *X, da_int ldx, const T *Y, da_int ldy, T *D, da_int ldd) {
    switch (f.f) {
    case 8: return da_rbf_kernel<T>(o, m, n, k, X, ldx, Y, ldy, D, ldd, (T)f.gamma);
    case 9: return da_linear_kernel<T>(o, m, n, k, X, ldx, Y, ldy, D, ldd);
    case 10: return da_polynomial_kernel<T>(o, m, n, k, X, ldx, Y, ldy, D, ldd, (T)f.gamma, f.degree, (T)f.coef0);
    case 11: return da_sigmoid_kernel<T>(o, m, n, k, X, ldx, Y, ldy, D, ldd, (T)f.gamma, (T)f.coef0);
    default: return da_pairwise_distances<T>(o, m, n, k, X, ldx, Y, ldy, D, ldd, (T)f.p, METRIC[f.f]);
    }
}
// the definition, and how far rounding may take a computation of it in the working precision
template <class T, class R> void want(const Fn &f, int k, const R &x, const R &y, L &v, L &tol) {
    L e = eps<T>(), s1 = 0, s2 = 0, dot = 0, nx = 0, ny = 0, sp = 0, ad = 0;
    for (int j = 0; j < k; j++) {
        L d = (L)x(j) - y(j);
        s1 += fabsl(d), s2 += d * d, dot += (L)x(j) * y(j), ad += fabsl((L)x(j) * y(j)), nx += (L)x(j) * x(j), ny += (L)y(j) * y(j);
        if (f.f == 3 && f.p != 1 && f.p != 2) sp += powl(fabsl(d), (L)(T)f.p);
    }
    L sums = e * (k + 4), gsq = sums * (nx + ny) * 4; // gsq: error of |x|^2+|y|^2-2xy
    switch (f.f) {
    case 0: v = sqrtl(s2); tol = sums * v; break;
    case 1: v = s2; tol = 2 * sums * v; break;
    case 2: v = s1; tol = sums * v; break;
    case 3:
        if (f.p == 1) v = s1, tol = sums * v;
        else if (f.p == 2) v = sqrtl(s2), tol = sums * v;
        else v = powl(sp, 1 / (L)(T)f.p), tol = (sums + 32 * e) * v * (1 + fabsl(logl(v + (v == 0)))) / fminl(1, f.p);
        break;
    case 4: {
        L a = sqrtl(nx), b = sqrtl(ny);
        L den = (a == 0 ? 1 : a) * (b == 0 ? 1 : b);
        v = 1 - dot / den; tol = 4 * sums + sums * ad / den;
        break;
    }
    case 5: v = sqrtl(s2); tol = sums * v + (s2 > gsq ? gsq / sqrtl(s2) : sqrtl(gsq + s2)); break;
    case 6: v = s2; tol = gsq; break;
    case 7: case 9: v = dot; tol = sums * ad; break;
    case 8: v = expl(-(L)(T)f.gamma * s2); tol = 16 * e * v + v * (L)f.gamma * gsq * 2 + v * fabsl((L)f.gamma * s2) * 8 * e + std::numeric_limits<T>::min(); break;
    case 10: {
        L b = (L)(T)f.gamma * dot + (L)(T)f.coef0, m = (L)f.gamma * ad + fabsl((L)f.coef0);
        v = powl(b, f.degree); tol = (sums * f.degree + 4 * e * f.degree) * powl(m, f.degree);
        break;
    }
    default: {
        L b = (L)(T)f.gamma * dot + (L)(T)f.coef0;
        v = tanhl(b); tol = 16 * e + sums * ((L)f.gamma * ad + fabsl((L)f.coef0)) * 2;
    }
    }
}
template <class T> void verify(mc::Ctx &c, const Shape &s, const Fn &f, Mat<T> X, Mat<T> Y) {
    int n = s.ynull ? s.m : s.n;
    Mat<T> D(s.m, n, s.o, s.padd), X0 = X, Y0 = Y;
    omp_set_num_threads(s.nt);
    da_status st = call<T>(f, s.o, s.m, s.ynull ? s.n : n, s.k, X.p(), X.ld, s.ynull ? nullptr : Y.p(), s.ynull ? 0 : Y.ld, D.p(), D.ld);
    omp_set_num_threads(1);
    c.op();
    auto desc = [&] {
        char b[300];
        snprintf(b, 300, "%s<%s> %s-major m=%d n=%d k=%d pad %d,%d,%d threads=%d %s pattern %d p=%g gamma=%g coef0=%g degree=%d", FN[f.f], sizeof(T) == 8 ? "double" : "float", ordn(s.o), s.m, n, s.k, s.padx, s.pady, s.padd, s.nt, s.ynull ? "X with itself" : "X with Y", s.pat, f.p, f.gamma, f.coef0, f.degree);
        std::string r = b;
        if (s.m * s.k <= 12) { r += " X="; for (int i = 0; i < s.m; i++) for (int j = 0; j < s.k; j++) r += std::to_string((double)X(i, j)) + " "; }
        return r;
    };
    std::string key = std::string("dist:") + FN[f.f];
    if (st) c.fail(key + ":status", "status %d for %s", (int)st, desc().c_str());
    if (!D.pad_ok()) c.fail(key + ":padding", "wrote outside the result: %s", desc().c_str());
    if (hvec(X.v) != hvec(X0.v) || hvec(Y.v) != hvec(Y0.v)) c.fail(key + ":input", "changed its input: %s", desc().c_str());
    bool integral = s.pat < 2;
    for (int i = 0; i < s.m; i++) for (int j = 0; j < n; j++) {
        auto x = [&](int q) { return (L)X(i, q); };
        const Mat<T> &YY = s.ynull ? X : Y;
        auto y = [&](int q) { return (L)YY(j, q); };
        L v, tol;
        want<T, std::function<L(int)>>(f, s.k, x, y, v, tol);
        if (f.f == 4) { // a zero vector has no direction; with itself both 0 and 1 are defensible
            L nx = 0; for (int q = 0; q < s.k; q++) nx += x(q) * x(q);
            if (nx == 0 && s.ynull && i == j) { if (D(i, j) != 0 && D(i, j) != 1) c.fail(key, "entry %d,%d is %.9g: %s", i, j, (double)D(i, j), desc().c_str()); continue; }
            if (s.ynull && i == j && D(i, j) != 0) c.fail(key + ":diagonal", "entry %d,%d of X with itself is %.9g: %s", i, j, (double)D(i, j), desc().c_str());
        }
        // on small integers everything but the last operation is exact
        if (integral) switch (f.f) {
            case 0: case 5: tol = 2 * eps<T>() * v; break;
            case 1: case 2: case 6: case 7: case 9: tol = 0; break;
            case 3: if (f.p == 1) tol = 0; if (f.p == 2) tol = 2 * eps<T>() * v; break;
            }
        L got = D(i, j);
        if (!(fabsl(got - v) <= tol)) c.fail(key, "entry %d,%d is %.17Lg, the definition gives %.17Lg (tolerance %.2Lg): %s", i, j, got, v, tol, desc().c_str());
    }
}
template <class T> void run(mc::Ctx &c, const Shape &s, const Fn &f) {
    Mat<T> X(s.m, s.k, s.o, s.padx), Y(s.ynull ? 0 : s.n, s.k, s.o, s.pady);
    for (int i = 0; i < X.n; i++) for (int j = 0; j < s.k; j++) X(i, j) = val<T>(s.pat, 0, i, j);
    for (int i = 0; i < Y.n; i++) for (int j = 0; j < s.k; j++) Y(i, j) = val<T>(s.pat, 1, i, j);
    verify<T>(c, s, f, X, Y);
}
static std::vector<Fn> fns(bool all) {
    std::vector<Fn> v;
    for (int f = 0; f < 8; f++) if (f != 3) v.push_back({f, 0, 0, 0, 1, false});
    for (double p : all ? std::vector<double>{1, 2, 3, 1.5, 0.5} : std::vector<double>{1, 2, 3}) v.push_back({3, p, 0, 0, 1, false});
    for (double g : all ? std::vector<double>{0, 0.25, 1} : std::vector<double>{0.25}) v.push_back({8, 0, g, 0, 1, true});
    v.push_back({9, 0, 0, 0, 1, true});
    for (int d : all ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 3}) v.push_back({10, 0, d == 2 ? 1 : 0.5, d == 1 ? 0 : d == 3 ? -1.5 : 2, d, true});
    for (double g : all ? std::vector<double>{0, 0.125, 1} : std::vector<double>{0.125}) v.push_back({11, 0, g, g == 1 ? -0.5 : 0.25, 1, true});
    return v;
}
// every shape up to and past the register blocks
template <class T> void shapes(mc::Ctx &c, int maxm, std::vector<int> ks, bool all) {
    static auto F0 = fns(false), F1 = fns(true);
    auto &F = all ? F1 : F0;
    Shape s;
    s.m = 1 + c.choose(maxm);
    const Fn &f = F[c.choose(F.size())];
    s.o = c.choose(2) ? row_major : column_major;
    s.ynull = c.choose(2);
    s.n = s.ynull ? c.pick({0, 1}) * 2 : 1 + c.choose(maxm);
    s.k = c.pick(ks);
    s.pat = c.choose(3);
    int pad = c.choose(2);
    s.padx = pad, s.pady = pad * 2, s.padd = pad * 3; s.nt = 1;
    run<T>(c, s, f);
}
// around the cache blocks and the parallel blocks
template <class T> void large(mc::Ctx &c, std::vector<int> ms, std::vector<int> ns, std::vector<int> ks, std::vector<int> nts) {
    static auto F = fns(false);
    Shape s;
    s.m = c.pick(ms);
    const Fn &f = F[c.choose(F.size())];
    s.o = c.choose(2) ? row_major : column_major;
    s.ynull = c.choose(2);
    s.n = s.ynull ? 0 : c.pick(ns);
    s.k = c.pick(ks);
    s.nt = c.pick(nts);
    s.pat = 0; s.padx = 1, s.pady = 0, s.padd = 2;
    run<T>(c, s, f);
}
// every pair of small vectors
template <class T> void values(mc::Ctx &c, int m, int n, int k, std::vector<double> V) {
    static auto F = fns(true);
    Shape s{m, n, k, 0, 0, 0, 1, false, column_major, 9};
    Mat<T> X(m, k, s.o), Y(n, k, s.o);
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) X(i, j) = (T)c.pick(V);
    for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) Y(i, j) = (T)c.pick(V);
    for (auto &f : F) verify<T>(c, s, f, X, Y);
    s.ynull = true;
    for (auto &f : F) verify<T>(c, s, f, X, Y);
}
// refused arguments: right status, nothing written
template <class T> void refused(mc::Ctx &c) {
    static auto F = fns(false);
    Fn f = F[c.choose(F.size())];
    da_order o = c.choose(2) ? row_major : column_major;
    bool ynull = c.choose(2);
    int m = 3, n = 2, k = 4, nn = ynull ? m : n;
    Mat<T> X(m, k, o, 1), Y(n, k, o, 1), D(m, nn, o, 1), D0 = D;
    X.fill((T)1), Y.fill((T)2);
    da_int am = c.pick({3, 0, -1}), an = c.pick({2, 0, -1}), ak = c.pick({4, 0, -1});
    int lx = c.choose(3), ly = c.choose(3), ld = c.choose(3); // 0 good, 1 exactly the minimum - 1, 2 negative
    bool nx = c.choose(2), nd = c.choose(2);
    int par = c.choose(2);
    auto ldf = [](int w, int good, int lead) { return (da_int)(w == 0 ? good : w == 1 ? lead - 1 : -1); };
    da_int ax = ldf(lx, X.ld, o == column_major ? m : k), ay = ldf(ly, Y.ld, o == column_major ? n : k), ad = ldf(ld, D.ld, o == column_major ? m : nn);
    if (par) { if (f.f == 3) f.p = -1; else if (f.f == 8 || f.f == 11) f.gamma = -1; else if (f.f == 10) f.degree = 0; else par = 0; }
    std::vector<da_status> ok;
    if (am < 1 || ak < 1 || (!ynull && an < 1)) ok.push_back(da_status_invalid_array_dimension);
    if (lx || ld || (ly && !ynull)) ok.push_back(da_status_invalid_leading_dimension);
    if (nx || nd) ok.push_back(da_status_invalid_pointer);
    if (par) ok.push_back(da_status_invalid_input);
    if (ok.empty()) ok.push_back(da_status_success);
    da_status st = call<T>(f, o, am, an, ak, nx ? nullptr : X.p(), ax, ynull ? nullptr : Y.p(), ay, nd ? nullptr : D.p(), ad);
    c.op();
    if (std::find(ok.begin(), ok.end(), st) == ok.end())
        c.fail(std::string("dist:refused:") + FN[f.f], "%s m=%d n=%d k=%d ldx=%d ldy=%d ldd=%d Xnull=%d Ynull=%d Dnull=%d p=%g gamma=%g degree=%d gave status %d", FN[f.f], (int)am, (int)an, (int)ak, (int)ax, (int)ay, (int)ad, nx, ynull, nd, f.p, f.gamma, f.degree, (int)st);
    if (st && hvec(D.v) != hvec(D0.v)) c.fail(std::string("dist:refused-wrote:") + FN[f.f], "a refused call (status %d) wrote the result", (int)st);
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    std::vector<int> KS = t ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 97, 129} : l ? std::vector<int>{3, 33} : std::vector<int>{1, 2, 5, 8, 33, 65};
    add("shapes<double>", 3, [=](mc::Ctx &c) { shapes<double>(c, t ? 20 : l ? 9 : 13, KS, t); });
    add("shapes<float>", 3, [=](mc::Ctx &c) { shapes<float>(c, t ? 20 : l ? 9 : 18, KS, t); });
    typedef std::vector<int> I;
    I ms = t ? I{127, 129, 255, 256, 257, 258, 260, 264, 273, 511, 512, 513, 515, 771} : l ? I{257} : I{256, 257, 272, 513};
    I ns = t ? I{1, 17, 255, 256, 257, 261, 272, 512, 513, 515} : l ? I{18, 257} : I{17, 257, 515};
    I ks = t ? I{1, 5, 33} : I{2};
    add("blocks<double>", 3, [=](mc::Ctx &c) { large<double>(c, ms, ns, ks, {1, 3}); });
    add("blocks<float>", 3, [=](mc::Ctx &c) { large<float>(c, ms, ns, ks, {1, 3}); });
    if (!l) {
        add("wide<double>", 3, [=](mc::Ctx &c) { large<double>(c, t ? I{5, 1023, 1024, 1025, 1031} : I{3, 1025}, t ? I{1023, 1024, 1025, 1026, 1031, 2049} : I{1024, 1027}, t ? I{1, 3, 33} : I{3}, {1}); });
        add("wide<float>", 3, [=](mc::Ctx &c) { large<float>(c, t ? I{5, 1023, 1024, 1025, 1031} : I{3, 1025}, t ? I{1023, 1024, 1025, 1026, 1033, 2049} : I{1024, 1027}, t ? I{1, 3, 33} : I{3}, {1}); });
    }
    std::vector<double> V{-2, 0, 1, 0.5};
    for (int k = 1; k <= (l ? 2 : 3); k++) add("values-k" + std::to_string(k) + "<double>", 2, [=](mc::Ctx &c) { values<double>(c, 1, 1, k, V); });
    for (int k = 1; k <= (l ? 2 : 3); k++) add("values-k" + std::to_string(k) + "<float>", 2, [=](mc::Ctx &c) { values<float>(c, 1, 1, k, V); });
    if (!l) add("values-2x2<double>", 2, [=](mc::Ctx &c) { values<double>(c, 2, t ? 2 : 1, 2, V); });
    add("refused<double>", 3, refused<double>);
    add("refused<float>", 3, refused<float>);
}
