// Stand-in for the "kernel templates" header shipped with AOCL-Sparse (not
// installed in this sandbox): the lane-wise meaning of the few primitives that
// AOCL-DA uses, written with the compilers' generic vector arithmetic.
#pragma once
#include "aoclda_types.h"
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <immintrin.h>
#include <type_traits>
#define KT_FORCE_INLINE inline __attribute__((__always_inline__))
namespace kernel_templates {
enum class bsz { b128, b256, b512 };
enum class kt_avxext { ANY, AVX, AVX2, AVX512F, AVX512VL, AVX512DQ };
namespace shim {
template <bsz, typename> struct vec;
template <> struct vec<bsz::b128, float> { typedef __m128 type; };
template <> struct vec<bsz::b128, double> { typedef __m128d type; };
template <> struct vec<bsz::b256, float> { typedef __m256 type; };
template <> struct vec<bsz::b256, double> { typedef __m256d type; };
template <> struct vec<bsz::b512, float> { typedef __m512 type; };
template <> struct vec<bsz::b512, double> { typedef __m512d type; };
} // namespace shim
template <bsz SZ, typename SUF> struct avxvector { typedef typename shim::vec<SZ, SUF>::type type; };
template <bsz SZ, typename SUF> using avxvector_t = typename avxvector<SZ, SUF>::type;
template <bsz SZ, typename SUF>
inline constexpr std::size_t tsz_v =
    (SZ == bsz::b128 ? 16 : SZ == bsz::b256 ? 32 : 64) / sizeof(SUF);
template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_setzero_p() noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = 0;
    return r;
}
template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_set1_p(const SUF x) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = x;
    return r;
}
template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_loadu_p(const SUF *a) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = a[i];
    return r;
}
template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_load_p(const SUF *a) noexcept {
    return kt_loadu_p<SZ, SUF>(a);
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE void kt_storeu_p(SUF *a, const avxvector_t<SZ, SUF> v) noexcept {
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) a[i] = v[i];
}
// gather: lane i = v[b[i]]
template <bsz SZ, typename SUF, typename I>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_set_p(const SUF *v, const I *b) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = v[b[i]];
    return r;
}
// direct load of the first L lanes starting at v[b], the others are zero
template <bsz SZ, typename SUF, kt_avxext, int L, typename I>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_maskz_set_p(const SUF *v, const I b) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = i < (std::size_t)L ? v[b + i] : SUF(0);
    return r;
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_add_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b) noexcept { return a + b; }
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_sub_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b) noexcept { return a - b; }
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_mul_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b) noexcept { return a * b; }
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_div_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b) noexcept { return a / b; }
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_max_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = a[i] > b[i] ? a[i] : b[i];
    return r;
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_fmadd_p(const avxvector_t<SZ, SUF> a, const avxvector_t<SZ, SUF> b, const avxvector_t<SZ, SUF> c) noexcept {
    avxvector_t<SZ, SUF> r;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) r[i] = std::fma((SUF)a[i], (SUF)b[i], (SUF)c[i]);
    return r;
}
template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_pow2_p(const avxvector_t<SZ, SUF> a) noexcept { return a * a; }
template <bsz SZ, typename SUF> KT_FORCE_INLINE SUF kt_hsum_p(avxvector_t<SZ, SUF> const v) noexcept {
    SUF s = 0;
    for (std::size_t i = 0; i < tsz_v<SZ, SUF>; i++) s += v[i];
    return s;
}
} // namespace kernel_templates
