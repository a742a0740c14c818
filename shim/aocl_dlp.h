// Stand-in for AOCL-DLP (not installed in this sandbox). Half precision is not
// explored by any check: the entry point is declared so that headers compile.
#pragma once
#include <stdint.h>
typedef uint16_t float16;
static inline void aocl_gemm_f16f16f16of16(char, char, char, int, int, int, float16,
    const float16 *, int, char, const float16 *, int, char, float16, float16 *, int, void *)
{ __builtin_trap(); }
