// Helpers over the public API.
#pragma once
#include "mc.hpp"
#include "aoclda.h"
#include "aoclda.hpp"
#include <cmath>
#include <limits>
#include <type_traits>
namespace dah {
template <class T> constexpr T NANV() { return std::numeric_limits<T>::quiet_NaN(); }
template <class T> uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
template <class T> bool same_bits(T a, T b) { return bits(a) == bits(b); }
inline const char *ordn(da_order o) { return o == row_major ? "row" : "col"; }
// n x m matrix in a given storage order with padding; the padding carries a marker that must survive
template <class T> struct Mat {
    int n, m, ld; da_order o;
    std::vector<T> v;
    T mark;
    static T default_mark() { if constexpr (std::is_floating_point_v<T>) return NANV<T>(); else return (T)-777777; }
    Mat() : n(0), m(0), ld(0), o(column_major), mark(default_mark()) {}
    Mat(int n_, int m_, da_order o_, int pad = 0, T mk = default_mark()) : n(n_), m(m_), o(o_), mark(mk) {
        ld = (o == column_major ? n : m) + pad;
        size_t outer = o == column_major ? m : n, inner = o == column_major ? n : m;
        // the last line carries no padding: an access past it is a heap overflow ASan sees
        v.assign(outer ? (outer - 1) * (size_t)ld + inner : 0, mark);
    }
    size_t ix(int i, int j) const { return o == column_major ? (size_t)j * ld + i : (size_t)i * ld + j; }
    T &operator()(int i, int j) { return v[ix(i, j)]; }
    const T &operator()(int i, int j) const { return v[ix(i, j)]; }
    T *p() { return v.data(); }
    const T *p() const { return v.data(); }
    bool is_pad(size_t k) const { return (int)(k % ld) >= (o == column_major ? n : m); }
    // nothing outside the matrix changed
    bool pad_ok() const {
        for (size_t k = 0; k < v.size(); k++) if (is_pad(k) && !same_bits(v[k], mark)) return false;
        return true;
    }
    bool all_mark() const { for (auto x : v) if (!same_bits(x, mark)) return false; return true; }
    void fill(T x) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) (*this)(i, j) = x; }
};
template <class T> Mat<T> rowsof(const std::vector<std::vector<double>> &r, da_order o, int pad = 0) {
    Mat<T> a(r.size(), r.empty() ? 0 : r[0].size(), o, pad);
    for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) a(i, j) = (T)r[i][j];
    return a;
}
template <class T> struct Handle {
    da_handle h = nullptr;
    da_status init_status;
    explicit Handle(da_handle_type t) { init_status = da_handle_init<T>(&h, t); }
    Handle(const Handle &) = delete;
    ~Handle() { da_handle_destroy(&h); }
    operator da_handle() { return h; }
    da_status set(const char *o, const char *v) { return da_options_set_string(h, o, v); }
    da_status set(const char *o, int v) { return da_options_set_int(h, o, (da_int)v); }
    da_status setr(const char *o, double v) { return da_options_set<T>(h, o, (T)v); }
    // set an option that must be accepted
    void must(mc::Ctx &c, const char *o, const char *v) { da_status s = set(o, v); if (s) c.fail("option", "setting '%s' to '%s' gave status %d", o, v, (int)s); }
    void must(mc::Ctx &c, const char *o, int v) { da_status s = set(o, v); if (s) c.fail("option", "setting '%s' to %d gave status %d", o, v, (int)s); }
    void mustr(mc::Ctx &c, const char *o, double v) { da_status s = setr(o, v); if (s) c.fail("option", "setting '%s' to %g gave status %d", o, v, (int)s); }
    void order(mc::Ctx &c, da_order o) { must(c, "storage order", o == row_major ? "row-major" : "column-major"); }
};
// result of a query in full; asks for the size first
template <class R> da_status getres(da_handle h, da_result q, da_int *dim, R *r) {
    if constexpr (std::is_same_v<R, da_int>) return da_handle_get_result_int(h, q, dim, r);
    else return da_handle_get_result<R>(h, q, dim, r);
}
template <class R> da_status query(da_handle h, da_result q, std::vector<R> &out, da_int guess = 0) {
    da_int dim = guess > 0 ? guess : 1;
    out.assign(dim, R());
    da_status s = getres<R>(h, q, &dim, out.data());
    if (s == da_status_invalid_array_dimension) {
        if (dim <= 0 || dim > 10000000) return s;
        out.assign(dim, R());
        s = getres<R>(h, q, &dim, out.data());
    }
    return s;
}
template <class R> std::vector<R> get(mc::Ctx &c, da_handle h, da_result q, da_int n, const char *what) {
    std::vector<R> r(n);
    da_int d = n;
    da_status s = getres<R>(h, q, &d, r.data());
    if (s) c.fail(std::string("query:") + what, "reading %s (%d entries) gave status %d (size said %d)", what, (int)n, (int)s, (int)d);
    return r;
}
template <class T> double eps() { return std::numeric_limits<T>::epsilon(); }
inline bool near(double a, double b, double tol, double scale = 1.0) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max({scale, std::fabs(a), std::fabs(b)});
}
template <class V> std::string str(const V &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { char b[40]; snprintf(b, 40, i ? ",%g" : "%g", (double)v[i]); s += b; }
    return s + "]";
}
inline std::string pts(const std::vector<std::vector<double>> &v) {
    std::string s;
    for (auto &r : v) s += str(r);
    return s;
}
template <class V> uint64_t hvec(const V &v) { uint64_t h = v.size(); for (auto x : v) h = mc::mix(h, bits(x)); return h; }
} // namespace dah
using namespace dah;
