// C38: half-precision conversion: every one of the 2^32 floats and 2^16 halves, and the half-precision vector helpers.
#include "mc.hpp"
#include "aoclda.h"
#define DA_FP16_DEFINE_BUILTINS // the library's own definitions, compiled here from its header
#ifndef ARCH
#define ARCH da_dynamic_dispatch_generic
#endif
#include "fp16_helpers.hpp"
#include <cmath>
typedef long double L;
static float tof(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint16_t hb(_Float16 h) { uint16_t b; memcpy(&b, &h, 2); return b; }
static _Float16 bh(uint16_t b) { _Float16 h; memcpy(&h, &b, 2); return h; }
// the value of half k (0..0x7c00, magnitude; 0x7c00 stands for 2^16, where overflow begins to count) in units of 2^-25
static uint64_t units(uint32_t k) { uint32_t e = k >> 10, m = k & 0x3ff; return e == 0 ? 2ull * m : (uint64_t)(0x400 + m) << e; }
static L hval(uint32_t k) { k &= 0x7fff; return ldexpl((L)units(k), -25); }
// nearest half, ties to even, from the definition; walks upwards with the magnitude
struct Walk {
    uint32_t k = 0; // current candidate
    explicit Walk(uint32_t mag) { uint32_t lo = 0, hi = 0x7c00; double v = tof(mag); while (lo < hi) { uint32_t mid = (lo + hi) / 2; if (beats(v, mid)) lo = mid + 1; else hi = mid; } k = lo; }
    // is v nearer to k+1 than to k (a tie goes to the even one)
    static bool beats(double v, uint32_t k) { if (k >= 0x7c00) return false; double m = std::ldexp((double)(units(k) + units(k + 1)), -26); return v > m || (v == m && (k & 1)); }
    double next = -1; // the midpoint above k
    uint32_t at(double v) { if (v >= next) { while (beats(v, k)) k++; next = k >= 0x7c00 ? 1e300 : std::ldexp((double)(units(k) + units(k + 1)), -26); } return k; }
};
void floats(mc::Ctx &c) {
    uint32_t hi = c.choose(mc::lite() ? 32 : 512); if (mc::lite()) hi = (hi & 1 ? 256 : 0) | (128 + hi / 2 * 16 - (hi < 16 ? 16 : 0)) % 256;
    uint32_t from = hi << 23, sign = from & 0x80000000u; // 2^23 floats: one sign and exponent
    if ((from & 0x7fffffff) == 0x7f800000) { // infinity and NaNs
        for (uint32_t m = 0; m < (1u << 23); m += mc::lite() ? 4099 : 1) { uint16_t g = da_fp16::f32_to_f16_bits(tof(from | m));
            bool ok = m ? (g & 0x7c00) == 0x7c00 && (g & 0x3ff) && (g & 0x8000) == sign >> 16 : g == (uint16_t)(sign >> 16 | 0x7c00);
            if (!ok) c.fail("half:special", "float %08x becomes half %04x", from | m, g); }
    } else {
        Walk w(from & 0x7fffffff);
        for (uint32_t m = 0; m < (1u << 23); m += mc::lite() ? 61 : 1) { float f = tof(from | m); uint32_t want = w.at(std::fabs((double)f)) | sign >> 16;
            uint16_t g = da_fp16::f32_to_f16_bits(f);
            if (g != want) c.fail("half:round", "float %08x (%.9g) becomes half %04x, nearest is %04x", from | m, (double)f, g, want); }
    }
    c.op(); c.out((int)hi);
    // the entry points the compiler calls, on the floats around every midpoint of this exponent
    for (uint32_t m = 0; m < (1u << 23); m += 1u << 12) for (int d = -1; d <= 1; d++) { uint32_t b = from + m + d; float f = tof(b); if (std::isnan(f)) continue;
        uint16_t g = da_fp16::f32_to_f16_bits(f), g1 = hb(__truncsfhf2(f)), g2 = hb(__truncdfhf2((double)f));
        if (g1 != g || g2 != g) c.fail("half:builtin", "float %08x: %04x by the helper, %04x and %04x by the compiler entry points", b, g, g1, g2); }
}
void halves(mc::Ctx &c) {
    uint32_t hi = c.choose(64);
    for (uint32_t b = hi << 10; b < (hi + 1) << 10; b++) {
        float f = da_fp16::f16_bits_to_f32(b), f2 = __extendhfsf2(bh(b)); uint32_t k = b & 0x7fff;
        if (bits(f) != bits(f2)) c.fail("half:builtin", "half %04x extends to %08x and %08x", b, bits(f), bits(f2));
        if (k > 0x7c00) { if (!std::isnan(f) || (bits(f) >> 31) != b >> 15) c.fail("half:special", "half NaN %04x becomes %08x", b, bits(f)); }
        else if (k == 0x7c00) { if (!std::isinf(f) || std::signbit(f) != (b >> 15 & 1)) c.fail("half:special", "half infinity %04x becomes %08x", b, bits(f)); }
        else if ((L)std::fabs(f) != hval(k) || std::signbit(f) != (b >> 15 & 1)) c.fail("half:exact", "half %04x becomes %.12g, is %.12Lg", b, (double)f, hval(k));
        if (k <= 0x7c00 && da_fp16::f32_to_f16_bits(f) != b) c.fail("half:round-trip", "half %04x comes back as %04x", b, da_fp16::f32_to_f16_bits(f));
        if (da_fp16::f16_to_bits(da_fp16::bits_to_f16(b)) != b) c.fail("half:bits", "bit copy of %04x", b);
    }
    c.op(); c.out((int)hi);
}
// arithmetic with counts: correctly rounded up to the documented intermediate float rounding
static bool nearhalf(_Float16 got, L want) {
    L g = hval(hb(got)); if (hb(got) & 0x8000) g = -g;
    if ((hb(got) & 0x7fff) == 0x7c00) return fabsl(want) >= 65519.9L;
    L a = fabsl(want); int e; frexpl(a, &e); L ulp = a == 0 ? 0 : ldexpl(1, std::max(e - 11, -24));
    return fabsl(g - want) <= ulp * 0.5005L;
}
void counts(mc::Ctx &c) {
    static const da_int N[] = {1, 2, 3, 5, 7, 10, 100, 2049, 4097, 65504, 65537, 1000000, 2147483647};
    da_int n = N[c.choose(13)]; uint32_t hi = c.choose(62);
    uint32_t from = hi < 31 ? hi << 10 : (hi - 31) << 10 | 0x8000;
    for (uint32_t b = from; b < from + 1024; b++) { _Float16 x = bh(b); L v = hval(b); if (b & 0x8000) v = -v;
        if (!nearhalf(da_fp16::div_int(x, n), v / n)) c.fail("half:div", "half %04x / %d gives %04x", b, (int)n, hb(da_fp16::div_int(x, n)));
        if (!nearhalf(da_fp16::mul_int(x, n), v * n)) c.fail("half:mul", "half %04x * %d gives %04x", b, (int)n, hb(da_fp16::mul_int(x, n))); }
    if (!nearhalf(da_fp16::inv_int<_Float16>(n), (L)1 / n)) c.fail("half:inv", "1 / %d", (int)n);
    if (!nearhalf(da_fp16::sqrt_int<_Float16>(n), sqrtl((L)n))) c.fail("half:sqrt", "sqrt %d", (int)n);
    c.op(); c.out((int)n);
}
// vector helpers on small integers, where every result is exact
void vectors(mc::Ctx &c) {
    static const int V[] = {0, 1, -1, 2, -3};
    int n = c.choose(5), incx = 1 + c.choose(2), incy = 1 + c.choose(2), alpha = c.pick(std::vector<int>{1, -2, 0});
    std::vector<int> x(n), y(n); for (int &v : x) v = V[c.choose(5)]; for (int i = 0; i < n; i++) y[i] = i < 2 ? V[c.choose(5)] : i;
    std::vector<_Float16> X(n * incx + 1, (_Float16)7), Y(n * incy + 1, (_Float16)9);
    for (int i = 0; i < n; i++) X[i * incx] = (_Float16)x[i], Y[i * incy] = (_Float16)y[i];
    int dot = 0, as = 0, im = 0; L nr = 0;
    for (int i = 0; i < n; i++) { dot += x[i] * y[i]; as += abs(x[i]); nr += x[i] * x[i]; if (abs(x[i]) > abs(x[im])) im = i; }
    auto bad = [&](const char *f) { std::string s; for (int v : x) s += std::to_string(v) + ","; s += " / "; for (int v : y) s += std::to_string(v) + ","; c.fail("half:vector", "%s of %s strides %d, %d, factor %d", f, s.c_str(), incx, incy, alpha); };
    if ((float)da_blas::cblas_dot(n, X.data(), incx, Y.data(), incy) != dot) bad("dot");
    if (da_blas::cblas_dot_wide(n, X.data(), incx, Y.data(), incy) != dot) bad("wide dot");
    if ((float)da_blas::cblas_asum(n, X.data(), incx) != as) bad("asum");
    if (da_blas::cblas_iamax(n, X.data(), incx) != (n ? im : 0)) bad("iamax");
    if (!nearhalf(da_blas::cblas_nrm2(n, X.data(), incx), sqrtl(nr))) bad("nrm2");
    auto Z = Y; da_blas::cblas_axpy(n, (_Float16)alpha, X.data(), incx, Z.data(), incy);
    for (size_t i = 0; i < Z.size(); i++) { bool in = n && i % incy == 0 && i / incy < (size_t)n; if ((float)Z[i] != (in ? y[i / incy] + alpha * x[i / incy] : 9)) bad("axpy"); }
    Z = Y; da_blas::cblas_copy(n, X.data(), incx, Z.data(), incy);
    for (size_t i = 0; i < Z.size(); i++) { bool in = n && i % incy == 0 && i / incy < (size_t)n; if ((float)Z[i] != (in ? x[i / incy] : 9)) bad("copy"); }
    auto W = X; da_blas::cblas_scal(n, (_Float16)alpha, W.data(), incx);
    for (size_t i = 0; i < W.size(); i++) { bool in = n && i % incx == 0 && i / incx < (size_t)n; if ((float)W[i] != (in ? alpha * x[i / incx] : 7)) bad("scal"); }
    c.op(); c.out(dot);
}
// matrix helpers: transposing copy, norms, symmetric product, strided matrix-vector product
void matrices(mc::Ctx &c) {
    int m = 1 + c.choose(3), n = 1 + c.choose(3), pad = c.choose(2), ld = m + pad; static const int V[] = {0, 1, -2};
    std::vector<int> a(m * n); for (int i = 0; i < m * n; i++) a[i] = i < 6 ? V[c.choose(3)] : (i % 3) - 1;
    std::vector<_Float16> A(ld * n, (_Float16)50); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A[i + j * ld] = (_Float16)a[i + j * m];
    auto bad = [&](const char *f) { std::string s; for (int v : a) s += std::to_string(v) + ","; c.fail("half:matrix", "%s of the %dx%d matrix %s leading dimension %d", f, m, n, s.c_str(), ld); };
    for (char t : {'N', 'T'}) { int r = t == 'N' ? m : n, q = t == 'N' ? n : m, lb = r + 1; std::vector<_Float16> B(lb * q, (_Float16)9);
        da_blas::omatcopy(t, m, n, (_Float16)2, A.data(), ld, B.data(), lb);
        for (int j = 0; j < q; j++) for (int i = 0; i < lb; i++) if ((float)B[i + j * lb] != (i == r ? 9 : 2 * (t == 'N' ? a[i + j * m] : a[j + i * m]))) bad("copy"); }
    L mx = 0, one = 0, inf = 0, fr = 0; std::vector<L> rs(m, 0);
    for (int j = 0; j < n; j++) { L s = 0; for (int i = 0; i < m; i++) { L v = std::abs(a[i + j * m]); mx = std::max(mx, v); s += v; rs[i] += v; fr += v * v; } one = std::max(one, s); }
    for (L v : rs) inf = std::max(inf, v);
    std::vector<_Float16> wk(m); da_int mm = m, nn = n, l = ld;
    for (const char *k : {"M", "O", "1", "I", "F", "m", "o", "i", "f"}) { L w = strchr("Mm", *k) ? mx : strchr("Oo1", *k) ? one : strchr("Ii", *k) ? inf : sqrtl(fr); _Float16 g = da::lange(k, &mm, &nn, A.data(), &l, wk.data());
        if (fabsl((L)(float)g - w) > (strchr("Ff", *k) ? 0.004L * (1 + w) : 0)) bad(k); }
    for (int row = 0; row < 2; row++) for (int tr = 0; tr < 2; tr++) for (int up = 0; up < 2; up++) { // C = 1 * A A^T (or A^T A) + 2 * C
        int N = tr ? n : m, K = tr ? m : n, lc = N + pad; CBLAS_ORDER o = row ? CblasRowMajor : CblasColMajor;
        std::vector<_Float16> R(A); int la = ld; if (row) { la = n + pad; R.assign(la * m, (_Float16)50); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) R[i * la + j] = (_Float16)a[i + j * m]; }
        std::vector<_Float16> C(lc * N, (_Float16)3);
        da_blas::cblas_syrk(o, up ? CblasUpper : CblasLower, tr ? CblasTrans : CblasNoTrans, N, K, (_Float16)1, R.data(), la, (_Float16)2, C.data(), lc);
        for (int i = 0; i < N; i++) for (int j = 0; j < lc; j++) { int p = row ? i : j, q = row ? j : i; // row p, column q
            if (j >= N) { if ((float)C[i * lc + j] != 3) bad("syrk padding"); continue; }
            bool in = up ? p <= q : p >= q; int s = 6; if (in) for (int k = 0; k < K; k++) s += tr ? a[k + p * m] * a[k + q * m] : a[p + k * m] * a[q + k * m]; else s = 3;
            if ((float)C[i * lc + j] != s) bad("syrk"); }
        int mo = tr ? n : m; std::vector<_Float16> x(2 * K), y(2 * mo, (_Float16)5); for (int k = 0; k < K; k++) x[2 * k] = (_Float16)(k + 1), x[2 * k + 1] = (_Float16)99;
        if (up) { da_blas::cblas_gemv(o, tr ? CblasTrans : CblasNoTrans, m, n, (_Float16)-1, R.data(), la, x.data(), 2, (_Float16)2, y.data(), 2);
            for (int i = 0; i < mo; i++) { int s = 10; for (int k = 0; k < K; k++) s -= (tr ? a[k + i * m] : a[i + k * m]) * (k + 1); if ((float)y[2 * i] != s || (float)y[2 * i + 1] != 5) bad("gemv"); } }
    }
    c.op(); c.out((int)mx);
}
void mc::register_all() {
    mc::add("all floats", 1, floats);
    mc::add("all halves", 1, halves);
    mc::add("counts", 2, counts);
    if (!mc::lite()) mc::add("vectors", 2, vectors);
    mc::add("matrices", 3, matrices);
}
