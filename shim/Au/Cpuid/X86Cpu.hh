// Stand-in for AOCL-Utils' CPU identification (not installed in this sandbox).
// Implements only what source/core/dynamic_dispatch/context.hpp asks for.
#pragma once
#include <cpuid.h>
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag {
    avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw,
    avx512vbmi, avx512_4vnniw, avx512_vpopcntdq, avx512_fp16
};
class X86Cpu {
  public:
    X86Cpu(int) {}
    EUarch getUarch() const { return EUarch::Unknown; }
    bool isAMD() const { return false; }
    bool hasFlag(ECpuidFlag f) const {
        unsigned a = 0, b = 0, c = 0, d = 0;
        __get_cpuid_count(7, 0, &a, &b, &c, &d);
        switch (f) {
        case ECpuidFlag::avx2: return b & (1u << 5);
        case ECpuidFlag::avx512f: return b & (1u << 16);
        case ECpuidFlag::avx512dq: return b & (1u << 17);
        case ECpuidFlag::avx512vl: return b & (1u << 31);
        case ECpuidFlag::avx512ifma: return b & (1u << 21);
        case ECpuidFlag::avx512cd: return b & (1u << 28);
        case ECpuidFlag::avx512bw: return b & (1u << 30);
        case ECpuidFlag::avx512vbmi: return c & (1u << 1);
        case ECpuidFlag::avx512_4vnniw: return d & (1u << 2);
        case ECpuidFlag::avx512_vpopcntdq: return c & (1u << 14);
        case ECpuidFlag::avx512_fp16: return d & (1u << 23);
        }
        return false;
    }
};
} // namespace Au
