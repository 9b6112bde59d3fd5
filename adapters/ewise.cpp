// Element-wise buffer functions.  Compiled with -DTYPE_DOUBLE or not and a set of -DG_* group switches.
#include "simd_binary_arithmetic.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_mix.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_unit_conversion.hpp"
#include "softclip.hpp"
#include "common.hpp"

#ifndef CT_A
#define CT_A 1
#define CT_B 3
#define CT_C 4
#endif

namespace {
template <char K> struct A;
#ifdef OPERAND_NONCONST
template <> struct A<'v'> { typedef F * T; static T get(PArg const & a) { return (F *)a.p; } };
#else
template <> struct A<'v'> { typedef const F * T; static T get(PArg const & a) { return (const F *)a.p; } };
#endif
template <> struct A<'s'> { typedef F T;         static T get(PArg const & a) { return (F)a.b; } };
#if __cplusplus >= 201103L
#define WRAPPED(K, EXPR) template <> struct A<K> { static auto get(PArg const & a) -> decltype(EXPR) { return EXPR; } };
WRAPPED('r', nova::slope_argument<F>((F)a.b, (F)a.s))
WRAPPED('V', nova::vector_argument<F>((const F *)a.p))
WRAPPED('S', nova::scalar_argument<F>((F)a.b))
#else
template <> struct A<'r'> { typedef nova::detail::scalar_ramp_argument<F> T; static T get(PArg const & a) { return nova::slope_argument<F>((F)a.b, (F)a.s); } };
template <> struct A<'V'> { typedef nova::detail::scalar_pointer_argument<F> T; static T get(PArg const & a) { return nova::vector_argument<F>((const F *)a.p); } };
template <> struct A<'S'> { typedef nova::detail::scalar_scalar_argument<F> T; static T get(PArg const & a) { return nova::scalar_argument<F>((F)a.b); } };
#endif
#define OUT ((F *)o[0])
#define UN(OP) struct k_##OP { \
    static void s(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec(OUT, (const F *)a[0].p, n); } \
    static void r(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec_simd(OUT, (const F *)a[0].p, n); } \
    template <unsigned N> struct c { static void f(void * const * o, const PArg * a, unsigned) { nova::OP##_vec_simd<N>(OUT, (const F *)a[0].p); } }; }; \
    void reg_##OP() { table.add("ew", #OP, 's', "v", 0, k_##OP::s); table.add("ew", #OP, 'r', "v", 0, k_##OP::r); \
    table.add("ew", #OP, 'c', "v", CT_A * U, k_##OP::c<CT_A * U>::f); table.add("ew", #OP, 'c', "v", CT_B * U, k_##OP::c<CT_B * U>::f); \
    table.add("ew", #OP, 'c', "v", CT_C * U, k_##OP::c<CT_C * U>::f); }

#ifdef CT_D
#define CTD2(OP) table.add("ew", #OP, 'c', k, CT_D * U, k2_##OP<K1,K2>::template c<CT_D * U>::f);
#else
#define CTD2(OP)
#endif
#define BIN2(NM, OP) template <char K1, char K2> struct k2_##NM { \
    static void s(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), n); } \
    static void r(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec_simd(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), n); } \
    template <unsigned N> struct c { static void f(void * const * o, const PArg * a, unsigned) { nova::OP##_vec_simd<N>(OUT, A<K1>::get(a[0]), A<K2>::get(a[1])); } }; }; \
    template <char K1, char K2> void reg2_##NM(const char * k) { \
    table.add("ew", #NM, 's', k, 0, k2_##NM<K1,K2>::s); table.add("ew", #NM, 'r', k, 0, k2_##NM<K1,K2>::r); \
    table.add("ew", #NM, 'c', k, CT_A * U, k2_##NM<K1,K2>::template c<CT_A * U>::f); \
    table.add("ew", #NM, 'c', k, CT_B * U, k2_##NM<K1,K2>::template c<CT_B * U>::f); \
    table.add("ew", #NM, 'c', k, CT_C * U, k2_##NM<K1,K2>::template c<CT_C * U>::f); } \
    template <char K1, char K2> void regw_##NM(const char * k) { \
    table.add("ew", #NM, 's', k, 0, k2_##NM<K1,K2>::s); table.add("ew", #NM, 'r', k, 0, k2_##NM<K1,K2>::r); }
#define BIN(OP) BIN2(OP, OP)

#define TER2(NM, OP) template <char K1, char K2, char K3> struct k3_##NM { \
    static void s(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2]), n); } \
    static void r(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec_simd(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2]), n); } \
    template <unsigned N> struct c { static void f(void * const * o, const PArg * a, unsigned) { nova::OP##_vec_simd<N>(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2])); } }; }; \
    template <char K1, char K2, char K3> void reg3_##NM(const char * k) { \
    table.add("ew", #NM, 's', k, 0, k3_##NM<K1,K2,K3>::s); table.add("ew", #NM, 'r', k, 0, k3_##NM<K1,K2,K3>::r); \
    table.add("ew", #NM, 'c', k, CT_A * U, k3_##NM<K1,K2,K3>::template c<CT_A * U>::f); \
    table.add("ew", #NM, 'c', k, CT_B * U, k3_##NM<K1,K2,K3>::template c<CT_B * U>::f); }

#define QUA2(NM, OP) template <char K1, char K2, char K3, char K4> struct k4_##NM { \
    static void s(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2]), A<K4>::get(a[3]), n); } \
    static void r(void * const * o, const PArg * a, unsigned n) { nova::OP##_vec_simd(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2]), A<K4>::get(a[3]), n); } \
    template <unsigned N> struct c { static void f(void * const * o, const PArg * a, unsigned) { nova::OP##_vec_simd<N>(OUT, A<K1>::get(a[0]), A<K2>::get(a[1]), A<K3>::get(a[2]), A<K4>::get(a[3])); } }; }; \
    template <char K1, char K2, char K3, char K4> void reg4_##NM(const char * k) { \
    table.add("ew", #NM, 's', k, 0, k4_##NM<K1,K2,K3,K4>::s); table.add("ew", #NM, 'r', k, 0, k4_##NM<K1,K2,K3,K4>::r); \
    table.add("ew", #NM, 'c', k, CT_B * U, k4_##NM<K1,K2,K3,K4>::template c<CT_B * U>::f); }

#define R2(OP, a, b) reg2_##OP<a, b>((const char[3]){a, b, 0})

#define BINOPS(X) X(plus) X(minus) X(times) X(over) X(min) X(max) X(less) X(less_equal) X(greater) X(greater_equal) X(equal) X(notequal) X(clip2)
#define POWOPS(X) X(pow) X(spow)
#define UNOPS(X) X(abs) X(sgn) X(square) X(cube) X(undenormalize) X(reciprocal)
#define RNDOPS(X) X(round) X(frac) X(ceil) X(floor) X(trunc)
#define MATHOPS(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tanh) X(log) X(log2) X(log10) X(exp)
#define UNITOPS(X) X(midi2freq) X(freq2midi) X(midi2ratio) X(ratio2midi) X(oct2freq) X(freq2oct) X(amp2db) X(db2amp)

// further compile-time lengths for some operations
#ifdef G_NS_BIN
template <unsigned N> void ns_bin()
{
    struct K {
        static void pvv(void * const * o, const PArg * a, unsigned) { nova::plus_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'v'>::get(a[1])); }
        static void mvs(void * const * o, const PArg * a, unsigned) { nova::times_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'s'>::get(a[1])); }
        static void xsv(void * const * o, const PArg * a, unsigned) { nova::clip2_vec_simd<N>(OUT, A<'s'>::get(a[0]), A<'v'>::get(a[1])); }
    };
    table.add("ew", "plus", 'c', "vv", N, K::pvv); table.add("ew", "times", 'c', "vs", N, K::mvs); table.add("ew", "clip2", 'c', "sv", N, K::xsv);
}
#endif
#ifdef G_NS_RAMP
template <unsigned N> void ns_ramp()
{
    struct K {
        static void pvr(void * const * o, const PArg * a, unsigned) { nova::times_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'r'>::get(a[1])); }
        static void mvr(void * const * o, const PArg * a, unsigned) { nova::mix_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'r'>::get(a[1]), A<'v'>::get(a[2]), A<'r'>::get(a[3])); }
        static void mad(void * const * o, const PArg * a, unsigned) { nova::muladd_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'r'>::get(a[1]), A<'s'>::get(a[2])); }
        static void prv(void * const * o, const PArg * a, unsigned) { nova::minus_vec_simd<N>(OUT, A<'r'>::get(a[0]), A<'v'>::get(a[1])); }
        static void mar(void * const * o, const PArg * a, unsigned) { nova::muladd_vec_simd<N>(OUT, A<'r'>::get(a[0]), A<'v'>::get(a[1]), A<'r'>::get(a[2])); }
        static void mxr(void * const * o, const PArg * a, unsigned) { nova::mix_vec_simd<N>(OUT, A<'r'>::get(a[0]), A<'v'>::get(a[1]), A<'r'>::get(a[2]), A<'s'>::get(a[3])); }
    };
    table.add("ew", "minus", 'c', "rv", N, K::prv); table.add("ew", "muladd", 'c', "rvr", N, K::mar); table.add("ew", "mix", 'c', "rvrs", N, K::mxr);
    table.add("ew", "times", 'c', "vr", N, K::pvr); table.add("ew", "mix", 'c', "vrvr", N, K::mvr); table.add("ew", "muladd", 'c', "vrs", N, K::mad);
}
#endif
#ifdef G_NS_MIX
template <unsigned N> void ns_mix()
{
    struct K {
        static void mix(void * const * o, const PArg * a, unsigned) { nova::mix_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'s'>::get(a[1]), A<'v'>::get(a[2]), A<'s'>::get(a[3])); }
        static void mad(void * const * o, const PArg * a, unsigned) { nova::muladd_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'v'>::get(a[1]), A<'v'>::get(a[2])); }
        static void s4(void * const * o, const PArg * a, unsigned) { nova::sum_vec_simd<N>(OUT, A<'v'>::get(a[0]), A<'v'>::get(a[1]), A<'v'>::get(a[2]), A<'v'>::get(a[3])); }
    };
    table.add("ew", "mix", 'c', "vsvs", N, K::mix); table.add("ew", "muladd", 'c', "vvv", N, K::mad); table.add("ew", "sum4", 'c', "vvvv", N, K::s4);
}
#endif
#ifdef G_NS_UN
template <unsigned N> void ns_un()
{
    struct K {
        static void sq(void * const * o, const PArg * a, unsigned) { nova::square_vec_simd<N>(OUT, A<'v'>::get(a[0])); }
        static void ab(void * const * o, const PArg * a, unsigned) { nova::abs_vec_simd<N>(OUT, A<'v'>::get(a[0])); }
    };
    table.add("ew", "square", 'c', "v", N, K::sq); table.add("ew", "abs", 'c', "v", N, K::ab);
}
#endif
#define NS_ALL(f) f<2 * U>(); f<5 * U>(); f<6 * U>(); f<7 * U>(); f<8 * U>(); f<9 * U>(); f<11 * U>(); f<12 * U>(); f<13 * U>(); f<16 * U>(); f<17 * U>(); f<21 * U>(); f<27 * U>(); f<32 * U>(); f<33 * U>(); f<64 * U>();

#if defined(G_BIN_VS) || defined(G_BIN_R) || defined(G_BIN_CORE)
BINOPS(BIN)
BIN2(sum2, sum)
#define BINOPS2(X) BINOPS(X) X(sum2)
#elif defined(G_BIN_SUM)
BIN2(sum2, sum)
#endif
#if defined(G_POW) || defined(G_POW_R) || defined(G_POW_CORE)
POWOPS(BIN)
#endif
#if defined(G_TER_VS) || defined(G_TER_R) || defined(G_TER_CORE)
TER2(clip, clip) TER2(muladd, muladd) TER2(ampmod, ampmod) TER2(sum3, sum)
#define TEROPS(X) X(clip) X(muladd) X(ampmod) X(sum3)
#endif
#if defined(G_QUA_VS) || defined(G_QUA_R) || defined(G_QUA_CORE)
QUA2(mix, mix) QUA2(sum4, sum)
#define QUAOPS(X) X(mix) X(sum4)
#endif
#ifdef G_UN
UNOPS(UN)
#endif
#ifdef G_RND
RNDOPS(UN)
#endif
#ifdef G_MATH
MATHOPS(UN)
#endif
#ifdef G_SQRT
UN(signed_sqrt)
#endif
#ifdef G_UNIT
UNITOPS(UN)
#endif
// softclip<double> does not compile when __SSE__ is defined without __SSE2__
#if defined(G_SOFT) && !(defined(TYPE_DOUBLE) && defined(__SSE__) && !defined(__SSE2__))
#define HAVE_SOFT
UN(softclip)
#endif

void build_table()
{
#ifdef G_NS_BIN
    NS_ALL(ns_bin)
#endif
#ifdef G_NS_RAMP
    NS_ALL(ns_ramp)
#endif
#ifdef G_NS_MIX
    NS_ALL(ns_mix)
#endif
#ifdef G_NS_UN
    NS_ALL(ns_un)
#endif
#ifdef G_BIN_VS
#define X(OP) reg2_##OP<'v','v'>("vv"); reg2_##OP<'v','s'>("vs"); reg2_##OP<'s','v'>("sv"); reg2_##OP<'s','s'>("ss"); regw_##OP<'V','S'>("VS"); regw_##OP<'S','V'>("SV");
    BINOPS(X)
#undef X
#endif
#ifdef G_BIN_SUM
    reg2_sum2<'v','v'>("vv"); reg2_sum2<'v','s'>("vs"); reg2_sum2<'s','v'>("sv"); reg2_sum2<'s','s'>("ss"); regw_sum2<'V','S'>("VS"); regw_sum2<'S','V'>("SV");
#endif
#ifdef G_BIN_R
#define X(OP) reg2_##OP<'v','r'>("vr"); reg2_##OP<'r','v'>("rv"); reg2_##OP<'r','r'>("rr"); reg2_##OP<'r','s'>("rs"); reg2_##OP<'s','r'>("sr");
    BINOPS2(X)
#undef X
#endif
#ifdef G_BIN_CORE
#define X(OP) reg2_##OP<'v','v'>("vv"); reg2_##OP<'v','s'>("vs"); reg2_##OP<'s','v'>("sv"); reg2_##OP<'v','r'>("vr"); reg2_##OP<'r','v'>("rv");
    BINOPS2(X)
#undef X
#endif
#ifdef G_POW
#define X(OP) reg2_##OP<'v','v'>("vv"); reg2_##OP<'v','s'>("vs"); reg2_##OP<'s','v'>("sv"); reg2_##OP<'s','s'>("ss");
    POWOPS(X)
#undef X
#endif
#ifdef G_POW_R
#define X(OP) reg2_##OP<'v','r'>("vr"); reg2_##OP<'r','v'>("rv"); reg2_##OP<'r','r'>("rr"); reg2_##OP<'r','s'>("rs"); reg2_##OP<'s','r'>("sr");
    POWOPS(X)
#undef X
#endif
#ifdef G_POW_CORE
#define X(OP) reg2_##OP<'v','v'>("vv"); reg2_##OP<'v','s'>("vs"); reg2_##OP<'s','v'>("sv"); reg2_##OP<'v','r'>("vr");
    POWOPS(X)
#undef X
#endif
#define K3(OP, a, b, c) reg3_##OP<#a[0], #b[0], #c[0]>(#a #b #c);
#ifdef G_TER_VS
#define X(OP) reg3_##OP<'v','v','v'>("vvv"); reg3_##OP<'v','v','s'>("vvs"); reg3_##OP<'v','s','v'>("vsv"); reg3_##OP<'v','s','s'>("vss"); \
    reg3_##OP<'s','v','v'>("svv"); reg3_##OP<'s','v','s'>("svs"); reg3_##OP<'s','s','v'>("ssv"); reg3_##OP<'s','s','s'>("sss");
    TEROPS(X)
#undef X
#endif
#ifdef G_TER_R
#define X(OP) reg3_##OP<'r','v','v'>("rvv"); reg3_##OP<'v','r','v'>("vrv"); reg3_##OP<'v','v','r'>("vvr"); \
    reg3_##OP<'v','r','r'>("vrr"); reg3_##OP<'r','v','r'>("rvr"); reg3_##OP<'r','r','v'>("rrv"); reg3_##OP<'r','r','r'>("rrr"); \
    reg3_##OP<'r','s','s'>("rss"); reg3_##OP<'s','r','s'>("srs"); reg3_##OP<'s','s','r'>("ssr"); \
    reg3_##OP<'v','r','s'>("vrs"); reg3_##OP<'v','s','r'>("vsr"); reg3_##OP<'r','v','s'>("rvs"); reg3_##OP<'r','s','v'>("rsv"); \
    reg3_##OP<'s','v','r'>("svr"); reg3_##OP<'s','r','v'>("srv"); reg3_##OP<'s','r','r'>("srr"); reg3_##OP<'r','s','r'>("rsr"); reg3_##OP<'r','r','s'>("rrs");
    TEROPS(X)
#undef X
#endif
#ifdef G_TER_CORE
#define X(OP) reg3_##OP<'v','v','v'>("vvv"); reg3_##OP<'v','s','s'>("vss"); reg3_##OP<'v','r','s'>("vrs"); reg3_##OP<'s','v','r'>("svr"); reg3_##OP<'r','v','v'>("rvv");
    TEROPS(X)
#undef X
#endif
#define Q4(OP, a, b, c, d) reg4_##OP<a, b, c, d>
#ifdef G_QUA_VS
#define X(OP) \
    reg4_##OP<'v','v','v','v'>("vvvv"); reg4_##OP<'v','v','v','s'>("vvvs"); reg4_##OP<'v','v','s','v'>("vvsv"); reg4_##OP<'v','v','s','s'>("vvss"); \
    reg4_##OP<'v','s','v','v'>("vsvv"); reg4_##OP<'v','s','v','s'>("vsvs"); reg4_##OP<'v','s','s','v'>("vssv"); reg4_##OP<'v','s','s','s'>("vsss"); \
    reg4_##OP<'s','v','v','v'>("svvv"); reg4_##OP<'s','v','v','s'>("svvs"); reg4_##OP<'s','v','s','v'>("svsv"); reg4_##OP<'s','v','s','s'>("svss"); \
    reg4_##OP<'s','s','v','v'>("ssvv"); reg4_##OP<'s','s','v','s'>("ssvs"); reg4_##OP<'s','s','s','v'>("sssv"); reg4_##OP<'s','s','s','s'>("ssss");
    QUAOPS(X)
#undef X
#endif
#ifdef G_QUA_R
#define X(OP) \
    reg4_##OP<'v','r','v','r'>("vrvr"); reg4_##OP<'v','r','v','s'>("vrvs"); reg4_##OP<'v','s','v','r'>("vsvr"); reg4_##OP<'v','v','v','r'>("vvvr"); \
    reg4_##OP<'v','r','v','v'>("vrvv"); reg4_##OP<'r','v','v','v'>("rvvv"); reg4_##OP<'v','v','r','v'>("vvrv"); reg4_##OP<'r','v','r','v'>("rvrv"); \
    reg4_##OP<'r','r','r','r'>("rrrr"); reg4_##OP<'r','s','v','v'>("rsvv"); reg4_##OP<'s','r','v','v'>("srvv"); reg4_##OP<'v','v','r','s'>("vvrs"); \
    reg4_##OP<'v','v','s','r'>("vvsr"); reg4_##OP<'r','r','v','v'>("rrvv"); reg4_##OP<'v','v','r','r'>("vvrr"); reg4_##OP<'v','r','r','v'>("vrrv"); \
    reg4_##OP<'s','r','s','r'>("srsr"); reg4_##OP<'r','s','r','s'>("rsrs"); reg4_##OP<'s','s','s','r'>("sssr"); reg4_##OP<'r','s','s','s'>("rsss");
    QUAOPS(X)
#undef X
#endif
#ifdef G_QUA_CORE
#define X(OP) reg4_##OP<'v','v','v','v'>("vvvv"); reg4_##OP<'v','s','v','s'>("vsvs"); reg4_##OP<'v','r','v','r'>("vrvr"); reg4_##OP<'s','v','r','v'>("svrv");
    QUAOPS(X)
#undef X
#endif
#define X(OP) reg_##OP();
#ifdef G_UN
    UNOPS(X)
#endif
#ifdef G_RND
    RNDOPS(X)
#endif
#ifdef G_MATH
    MATHOPS(X)
#endif
#ifdef G_SQRT
    X(signed_sqrt)
#endif
#ifdef G_UNIT
    UNITOPS(X)
#endif
#ifdef HAVE_SOFT
    X(softclip)
#endif
#undef X
}
}
ADAPTER_EXPORTS
