// ABI between the adapters (compiled once per nova-simd configuration) and the drivers.
#ifndef PBT_ABI_H
#define PBT_ABI_H
#include <cstddef>
struct PArg { const void * p; double b, s; };               // buffer | constant b | ramp (b, s)
typedef void (*PKernel)(void * const * out, const PArg * a, unsigned n);
struct PEntry {
    const char * fam;   // "ew" element-wise, "mem", "pan", "red", "peak", ...
    const char * op;
    char type;          // 'f' float, 'd' double
    char form;          // 's' plain loop, 'r' run-time simd, 'c' compile-time unrolled
    const char * kinds; // one char per operand: v buffer, s constant, r ramp, V/S explicitly wrapped
    unsigned N;         // compile-time length (form c), else 0
    PKernel fn;
};
struct PInfo {          // facts about one configuration and sample type
    int vec_size, per_loop, samples_per_loop, bitmask;
    unsigned align;     // alignment of vectorised buffers in bytes
};
typedef const PEntry * (*PTableFn)(size_t *);
typedef void (*PInfoFn)(char type, PInfo *);
#endif
