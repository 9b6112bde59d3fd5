// Memory, pan, reduction and metering functions.
#include "simd_memory.hpp"
#include "simd_pan.hpp"
#include "simd_horizontal_functions.hpp"
#include "simd_peakmeter.hpp"
#include "common.hpp"
#include <cstring>

namespace {
#define O0 ((F *)o[0])
#define O1 ((F *)o[1])
#define P(i) ((const F *)a[i].p)
#define B(i) ((F)a[i].b)
#define SL(i) ((F)a[i].s)
#define FN(name, body) void name(void * const * o, const PArg * a, unsigned n) { (void)o; (void)a; (void)n; body; }
#define FNC(name, body) template <unsigned N> void name(void * const * o, const PArg * a, unsigned n) { (void)o; (void)a; (void)n; body; }
// kinds: v = aligned buffer, u = buffer that may be unaligned (also for the output, given as leading letter of the fam)
#ifdef G_MEM
FN(zero_s, nova::zerovec(O0, n))            FN(zero_r, nova::zerovec_simd(O0, n))     FNC(zero_c, nova::zerovec_simd<N>(O0))
FN(zero_nr, nova::zerovec_na_simd(O0, n))   FNC(zero_nc, nova::zerovec_na_simd<N>(O0))
FN(set_s, nova::setvec(O0, *P(0), n))        FN(set_r, nova::setvec_simd(O0, *P(0), n)) FNC(set_c, nova::setvec_simd<N>(O0, *P(0)))
FN(set_nr, nova::setvec_na_simd(O0, *P(0), n)) FNC(set_nc, nova::setvec_na_simd<N>(O0, *P(0)))
// the value is passed by pointer so that NaN payloads survive
FN(copy_s, nova::copyvec(O0, P(0), n))      FN(copy_r, nova::copyvec_simd(O0, P(0), n)) FNC(copy_c, nova::copyvec_simd<N>(O0, P(0)))
#define COPY(X) FN(copy_##X##_r, nova::copyvec_##X##_simd(O0, P(0), n)) FNC(copy_##X##_c, nova::copyvec_##X##_simd<N>(O0, P(0)))
COPY(aa) COPY(na) COPY(an) COPY(nn)
#endif
#ifdef G_GEN
FN(slope_s, nova::set_slope_vec(O0, B(0), SL(0), n)) FN(slope_r, nova::set_slope_vec_simd(O0, B(0), SL(0), n))
FN(exp_s, nova::set_exp_vec(O0, B(0), SL(0), n))     FN(exp_r, nova::set_exp_vec_simd(O0, B(0), SL(0), n))
#endif
#ifdef G_ADD
FN(addv_s, nova::addvec(O0, P(0), n))       FN(addv_r, nova::addvec_simd(O0, P(0), n)) FNC(addv_c, nova::addvec_simd<N>(O0, P(0)))
FN(adds_s, nova::addvec(O0, B(0), n))       FN(adds_r, nova::addvec_simd(O0, B(0), n)) FNC(adds_c, nova::addvec_simd<N>(O0, B(0)))
FN(addr_s, nova::addvec(O0, B(0), SL(0), n)) FN(addr_r, nova::addvec_simd(O0, B(0), SL(0), n)) FNC(addr_c, nova::addvec_simd<N>(O0, B(0), SL(0)))
#endif
#ifdef G_PAN
FN(pans_s, nova::pan2_vec(O0, O1, P(0), B(1), B(2), n)) FN(pans_r, nova::pan2_vec_simd(O0, O1, P(0), B(1), B(2), n)) FNC(pans_c, nova::pan2_vec_simd<N>(O0, O1, P(0), B(1), B(2)))
FN(panr_s, nova::pan2_vec(O0, O1, P(0), B(1), SL(1), B(2), SL(2), n)) FN(panr_r, nova::pan2_vec_simd(O0, O1, P(0), B(1), SL(1), B(2), SL(2), n))
FNC(panr_c, nova::pan2_vec_simd<N>(O0, O1, P(0), B(1), SL(1), B(2), SL(2)))
#endif
#ifdef G_RED
FN(hmax_s, *O0 = nova::horizontal_max_vec(P(0), n)) FN(hmax_r, *O0 = nova::horizontal_max_vec_simd(P(0), n))
FN(hmin_s, *O0 = nova::horizontal_min_vec(P(0), n)) FN(hmin_r, *O0 = nova::horizontal_min_vec_simd(P(0), n))
FN(hsum_s, *O0 = nova::horizontal_sum_vec(P(0), n)) FN(hsum_r, *O0 = nova::horizontal_sum_vec_simd(P(0), n))
FN(hminmax_s, nova::horizontal_minmax_vec(*O0, *O1, P(0), n)) FN(hminmax_r, nova::horizontal_minmax_vec_simd(*O0, *O1, P(0), n))
FN(hmaxsum_s, nova::horizontal_maxsum_vec(*O0, *O1, P(0), n)) FN(hmaxsum_r, nova::horizontal_maxsum_vec_simd(*O0, *O1, P(0), n))
#endif
#ifdef G_PEAK
// peak: out[0] = peak (in/out), out[1] = returned last magnitude
FN(peak_s, *O1 = nova::peak_vec(P(0), O0, n)) FN(peak_r, *O1 = nova::peak_vec_simd(P(0), O0, n))
// rms: out[0] = peak, out[1] = squared sum
FN(rms_s, nova::peak_rms_vec(P(0), O0, O1, n)) FN(rms_r, nova::peak_rms_vec_simd(P(0), O0, O1, n))


#endif
#define CT(fam, op, kinds, f) table.add(fam, op, 'c', kinds, U, f<U>); table.add(fam, op, 'c', kinds, 3*U, f<3*U>); \
    table.add(fam, op, 'c', kinds, 4*U, f<4*U>); table.add(fam, op, 'c', kinds, 7*U, f<7*U>); \
    table.add(fam, op, 'c', kinds, 8*U, f<8*U>); table.add(fam, op, 'c', kinds, 16*U, f<16*U>); table.add(fam, op, 'c', kinds, 64*U, f<64*U>); \
    table.add(fam, op, 'c', kinds, 9*U, f<9*U>); table.add(fam, op, 'c', kinds, 13*U, f<13*U>); table.add(fam, op, 'c', kinds, 22*U, f<22*U>); table.add(fam, op, 'c', kinds, 33*U, f<33*U>);
#define ALL3(fam, op, kinds, p) table.add(fam, op, 's', kinds, 0, p##_s); table.add(fam, op, 'r', kinds, 0, p##_r); CT(fam, op, kinds, p##_c)
#define TWO(fam, op, kinds, p) table.add(fam, op, 's', kinds, 0, p##_s); table.add(fam, op, 'r', kinds, 0, p##_r);
void build_table()
{
    // fam "mem": aligned output; "memu": output may be unaligned
#ifdef G_MEM
    ALL3("mem", "zero", "", zero)
    table.add("memu", "zero_na", 'r', "", 0, zero_nr); CT("memu", "zero_na", "", zero_nc)
    ALL3("mem", "set", "p", set)
    table.add("memu", "set_na", 'r', "p", 0, set_nr); CT("memu", "set_na", "p", set_nc)
    ALL3("mem", "copy", "v", copy)
    table.add("mem", "copy_aa", 'r', "v", 0, copy_aa_r); CT("mem", "copy_aa", "v", copy_aa_c)
    table.add("mem", "copy_na", 'r', "u", 0, copy_na_r); CT("mem", "copy_na", "u", copy_na_c)
    table.add("memu", "copy_an", 'r', "v", 0, copy_an_r); CT("memu", "copy_an", "v", copy_an_c)
    table.add("memu", "copy_nn", 'r', "u", 0, copy_nn_r); CT("memu", "copy_nn", "u", copy_nn_c)
#endif
#ifdef G_GEN
    TWO("gen", "slope", "r", slope)
    TWO("gen", "exp", "r", exp)
#endif
#ifdef G_ADD
    ALL3("add", "addvec", "v", addv)
    ALL3("add", "addvec", "s", adds)
    ALL3("add", "addvec", "r", addr)
#endif
#ifdef G_PAN
    ALL3("pan", "pan2", "vss", pans)
    ALL3("pan", "pan2", "vrr", panr)
#endif
#ifdef G_RED
    TWO("red", "hmax", "v", hmax)  TWO("red", "hmin", "v", hmin)  TWO("red", "hsum", "v", hsum)
    TWO("red", "hminmax", "v", hminmax)  TWO("red", "hmaxsum", "v", hmaxsum)
#endif
#ifdef G_PEAK
    TWO("peak", "peak", "v", peak)  TWO("peak", "rms", "v", rms)
#endif
}
}
ADAPTER_EXPORTS
