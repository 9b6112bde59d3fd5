// C++98-compatible adapter helpers.  TYPE is float or double, TCH 'f' or 'd'.
#ifndef ADAPTER_COMMON_HPP
#define ADAPTER_COMMON_HPP
#include "../engine/abi.h"
#include <limits>
#include <cstdlib>
#include "vec.hpp"
#include "simd_unroll_constraints.hpp"

#ifdef TYPE_DOUBLE
typedef double F; static const char TCH = 'd';
#else
typedef float F;  static const char TCH = 'f';
#endif
#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
struct Table {
    PEntry * e; size_t n;            // on the heap: the writable segments hold only state of the code under test
    static const size_t MAX = 20000;
    void add(const char * fam, const char * op, char form, const char * kinds, unsigned N, PKernel fn)
    {
        if (!e) e = (PEntry *)malloc(MAX * sizeof(PEntry));
        if (!e || n >= MAX) abort();
        PEntry x = { fam, op, TCH, form, kinds, N, fn }; e[n++] = x;
    }
};
Table table;    // zero initialised
void build_table();

// compile-time lengths: multiples of one cache line
static const unsigned U = 64 / sizeof(F);
}

#define ADAPTER_EXPORTS \
EXPORT const PEntry * pbt_table(size_t * n) { if (!table.n) build_table(); *n = table.n; return table.e; } \
EXPORT void pbt_info(char, PInfo * i) { \
    i->vec_size = nova::vec<F>::size; i->per_loop = nova::vec<F>::objects_per_cacheline; \
    i->samples_per_loop = nova::unroll_constraints<F>::samples_per_loop; \
    i->bitmask = 0; i->align = ADAPTER_ALIGN; }

// alignment required from buffers of vectorised calls: the register width of the instruction set
#if defined(__AVX__)
#define ADAPTER_ALIGN 32
#elif defined(TYPE_DOUBLE) && defined(__SSE2__)
#define ADAPTER_ALIGN 16
#elif !defined(TYPE_DOUBLE) && defined(__SSE__)
#define ADAPTER_ALIGN 16
#elif !defined(TYPE_DOUBLE) && (defined(__ARM_NEON__) || defined(__ALTIVEC__))
#define ADAPTER_ALIGN 16
#else
#define ADAPTER_ALIGN sizeof(F)
#endif
#endif
