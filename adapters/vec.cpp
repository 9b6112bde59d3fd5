// The vector register class and the register helpers.
// Kernels work on a register file: o[0] = array of vec<F>, o[1] = memory the call may write, a[0].b = destination register,
// a[1..3].b = source registers, a[0].p = memory or scalars the call reads, n = lane.
#include "common.hpp"
#include <cmath>
#ifdef G_UTILS
#include "simd_utils.hpp"
#endif

#if defined(__AVX__)
#define HAS_MASK 1
#elif defined(TYPE_DOUBLE) && defined(__SSE2__)
#define HAS_MASK 1
#elif !defined(TYPE_DOUBLE) && (defined(__SSE__) || defined(__ARM_NEON__) || defined(__ALTIVEC__))
#define HAS_MASK 1
#else
#define HAS_MASK 0
#endif

namespace {
using namespace nova;
typedef nova::vec<F> V;
#define R(i) (((V *)o[0])[(int)a[i].b])
#define D R(0)
#define X R(1)
#define Y R(2)
#define Z R(3)
#define IN ((const F *)a[0].p)
#define OUT ((F *)o[1])
#define FN(name, body) void name(void * const * o, const PArg * a, unsigned n) { (void)o; (void)a; (void)n; body; }

FN(v_dump, for (unsigned i = 0; i < n; ++i) ((V *)o[0])[i].store(OUT + i * V::size))
FN(v_load, D.load(IN))

#ifdef G_VEC
struct twice { F operator()(F x) const { return x + x; } };
struct flip { F operator()(F x) const { return -x; } };
FN(v_ctor, D = V(*IN))
#ifdef TYPE_DOUBLE
FN(v_ctorf, D = V((float)*IN))
#endif
FN(v_copy, V t(X); D = t)
FN(v_assign, D = X)
FN(v_swap, V t(D); D = X; X = t)
FN(v_load_aligned, D.load_aligned(IN))
FN(v_load_first, D.load_first(IN))
FN(v_store, X.store(OUT))
FN(v_store_aligned, X.store_aligned(OUT))
FN(v_store_stream, X.store_aligned_stream(OUT); __asm__ __volatile__("sfence" ::: "memory"))
FN(v_clear, D.clear())
FN(v_get, *OUT = X.get(n))
FN(v_set, D.set(n, *IN))
FN(v_set_vec, D.set_vec(*IN))
FN(v_set_slope, *OUT = D.set_slope(IN[0], IN[1]))
FN(v_set_exp, *OUT = D.set_exp(IN[0], IN[1]))
FN(v_addeq, D += X) FN(v_subeq, D -= X) FN(v_muleq, D *= X) FN(v_diveq, D /= X)
FN(v_plus, D = X + Y) FN(v_minus, D = X - Y) FN(v_times, D = X * Y) FN(v_over, D = X / Y)
FN(v_less, D = X < Y) FN(v_less_equal, D = X <= Y) FN(v_greater, D = X > Y) FN(v_greater_equal, D = X >= Y) FN(v_equal, D = X == Y) FN(v_notequal, D = X != Y)
FN(v_max, D = max_(X, Y)) FN(v_min, D = min_(X, Y))
FN(v_madd, D = madd(X, Y, Z))
#define UN1(name, f) FN(v_##name, D = f(X))
UN1(abs, abs) UN1(sgn, sign) UN1(square, square) UN1(cube, cube) UN1(reciprocal, reciprocal) UN1(signed_sqrt, signed_sqrt) UN1(undenormalize, undenormalize)
UN1(round, round) UN1(frac, frac) UN1(floor, floor) UN1(ceil, ceil) UN1(trunc, trunc)
UN1(sin, sin) UN1(cos, cos) UN1(tan, tan) UN1(asin, asin) UN1(acos, acos) UN1(atan, atan) UN1(tanh, tanh) UN1(log, log) UN1(log2, log2) UN1(log10, log10) UN1(exp, exp)
FN(v_pow, D = pow(X, Y)) FN(v_spow, D = signed_pow(X, Y))
FN(v_collect2, D = V(X.collect(twice()))) FN(v_collectn, D = V(X.collect(flip())))
FN(v_hmin, *OUT = X.horizontal_min()) FN(v_hmax, *OUT = X.horizontal_max()) FN(v_hsum, *OUT = X.horizontal_sum())
#if HAS_MASK
FN(v_sqrt, D = sqrt(X))
#ifndef TYPE_DOUBLE
FN(v_plus_vs, D = X + *IN) FN(v_minus_vs, D = X - *IN) FN(v_times_vs, D = X * *IN) FN(v_over_vs, D = X / *IN)
FN(v_plus_sv, D = *IN + X) FN(v_minus_sv, D = *IN - X) FN(v_times_sv, D = *IN * X) FN(v_over_sv, D = *IN / X)
#ifndef __ARM_NEON__
FN(v_neg, D = -X)
#endif
FN(v_frcp, D = fast_reciprocal(X))
#endif
#endif
#endif

#ifdef G_MASK
FN(m_hmin, *OUT = X.horizontal_min()) FN(m_hmax, *OUT = X.horizontal_max()) FN(m_hsum, *OUT = X.horizontal_sum())
FN(m_select, D = select(X, Y, Z))
FN(m_zero, D = V(V::gen_zero()))
#if !HAS_MASK
FN(m_ones1, D = V(V::gen_ones()))       // without masks the constant "true" is 1
#else
FN(m_lt, D = mask_lt(X, Y)) FN(m_le, D = mask_le(X, Y)) FN(m_gt, D = mask_gt(X, Y)) FN(m_ge, D = mask_ge(X, Y)) FN(m_eq, D = mask_eq(X, Y)) FN(m_neq, D = mask_neq(X, Y))
FN(m_and, D = X & Y) FN(m_or, D = X | Y) FN(m_xor, D = X ^ Y)
#if !defined(TYPE_DOUBLE) || !defined(__AVX__)
FN(m_andnot, D = andnot(X, Y))
#endif
FN(m_sign, D = V(V::gen_sign_mask())) FN(m_abs, D = V(V::gen_abs_mask())) FN(m_one, D = V(V::gen_one())) FN(m_05, D = V(V::gen_05()))
#ifndef __ARM_NEON__
FN(m_ones, D = V(V::gen_ones()))
#endif
#ifndef TYPE_DOUBLE
FN(m_exp, D = V(V::gen_exp_mask())) FN(m_exp1, D = V(V::gen_exp_mask_1()))
FN(m_set, unsigned u; __builtin_memcpy(&u, a[0].p, 4); D = V(V::set_bitmask(u)))
#endif
#endif
#endif

#ifdef G_INT
typedef V::int_vec IV;
inline unsigned word(const PArg * a) { unsigned u; __builtin_memcpy(&u, a[0].p, 4); return u; }
inline IV ival(V const & v) { return IV(v); }
FN(i_plus, D = V(ival(X) + ival(Y))) FN(i_minus, D = V(ival(X) - ival(Y))) FN(i_and, D = V(ival(X) & ival(Y))) FN(i_andnot, D = V(andnot(ival(X), ival(Y))))
FN(i_lt, D = V(mask_lt(ival(X), ival(Y)))) FN(i_gt, D = V(mask_gt(ival(X), ival(Y)))) FN(i_eq, D = V(mask_eq(ival(X), ival(Y))))
FN(i_sl, D = V(slli(ival(X), (int)(word(a) & 31)))) FN(i_sr, D = V(srli(ival(X), (int)(word(a) & 31))))
FN(i_ctor, D = V(IV((int)word(a)))) FN(i_copy, IV t(ival(X)); IV u(t); D = V(u)) FN(i_assign, IV u; u = ival(X); D = V(u))
FN(i_trunc, D = V(X.truncate_to_int())) FN(i_conv, D = V(ival(X).convert_to_float()))
#endif

#ifdef G_ALIGN
FN(al_is, *OUT = V::is_aligned((F *)a[0].p) ? (F)1 : (F)0)
FN(al_size, OUT[0] = (F)V::size; OUT[1] = (F)V::objects_per_cacheline; OUT[2] = (F)unroll_constraints<F>::samples_per_loop)
FN(al_la, V v; v.load_aligned(IN); v.store(OUT)) FN(al_sa, V v; v.load(IN); v.store_aligned(OUT)) FN(al_ss, V v; v.load(IN); v.store_aligned_stream(OUT); __asm__ __volatile__("sfence" ::: "memory"))
FN(al_aa, V v; v.load_aligned(IN); v.store_aligned(OUT)) FN(al_uu, V v; v.load(IN); v.store(OUT)) FN(al_lf, V v; v.load_first(IN); v.store(OUT))
#endif

#ifdef G_UTILS
#define M ((__m128 *)o[0])
#define MX M[(int)a[1].b]
#define MY M[(int)a[2].b]
#define MZ M[(int)a[3].b]
#define MD M[(int)a[0].b]
FN(u_sign, MD = detail::gen_sign_mask()) FN(u_abs, MD = detail::gen_abs_mask()) FN(u_one, MD = detail::gen_one()) FN(u_05, MD = detail::gen_05()) FN(u_025, MD = detail::gen_025())
FN(u_x0, *OUT = detail::extract_0(MX)) FN(u_x3, *OUT = detail::extract_3(MX)) FN(u_hmin, *OUT = detail::horizontal_min(MX)) FN(u_hmax, *OUT = detail::horizontal_max(MX))
FN(u_select, MD = detail::select_vector(MX, MY, MZ))
FN(u_load, MD = _mm_loadu_ps(IN)) FN(u_dump, for (unsigned i = 0; i < n; ++i) _mm_storeu_ps(OUT + i * 4, M[i]))
#endif

// kinds: d = destination register, x/y/z = source registers, p = reads memory (one per scalar, A = a whole aligned register, L = a whole register), l = lane, o = writes scalar, O = writes register, Q = aligned
#define T(op, kinds, fn) table.add("vec", op, 'v', kinds, 0, fn);
#define TM(op, kinds, fn) table.add("mask", op, 'v', kinds, 0, fn);
#define TA(op, fn) table.add("align", op, 'v', "", 0, fn);
#define TU(op, kinds, fn) table.add("util", op, 'v', kinds, 0, fn);
void build_table()
{
#ifndef G_UTILS
    table.add("reg", "dump", 'v', "", 0, v_dump); table.add("reg", "load", 'v', "", 0, v_load);
#endif
#ifdef G_VEC
    T("load", "dL", v_load) T("ctor", "dp", v_ctor)
#ifdef TYPE_DOUBLE
    T("ctorf", "dp", v_ctorf)
#endif
    T("copy", "dx", v_copy) T("assign", "dx", v_assign) T("swap", "dx", v_swap) T("load_aligned", "dA", v_load_aligned) T("load_first", "dp", v_load_first)
    T("store", "xO", v_store) T("store_aligned", "xQ", v_store_aligned) T("store_stream", "xQ", v_store_stream) T("clear", "d", v_clear)
    T("get", "xlo", v_get) T("set", "dlp", v_set) T("set_vec", "dp", v_set_vec) T("set_slope", "dppo", v_set_slope) T("set_exp", "dppo", v_set_exp)
    T("addeq", "dx", v_addeq) T("subeq", "dx", v_subeq) T("muleq", "dx", v_muleq) T("diveq", "dx", v_diveq)
#define T2(op) T(#op, "dxy", v_##op)
    T2(plus) T2(minus) T2(times) T2(over) T2(less) T2(less_equal) T2(greater) T2(greater_equal) T2(equal) T2(notequal) T2(max) T2(min) T2(pow) T2(spow)
    T("muladd", "dxyz", v_madd)
#define T1(op) T(#op, "dx", v_##op)
    T1(abs) T1(sgn) T1(square) T1(cube) T1(reciprocal) T1(signed_sqrt) T1(undenormalize) T1(round) T1(frac) T1(floor) T1(ceil) T1(trunc)
    T1(sin) T1(cos) T1(tan) T1(asin) T1(acos) T1(atan) T1(tanh) T1(log) T1(log2) T1(log10) T1(exp)
    T("collect2", "dx", v_collect2) T("collectn", "dx", v_collectn)
    T("hmin", "xo", v_hmin) T("hmax", "xo", v_hmax) T("hsum", "xo", v_hsum)
#if HAS_MASK
    T1(sqrt)
#ifndef TYPE_DOUBLE
    T("plus_vs", "dxp", v_plus_vs) T("minus_vs", "dxp", v_minus_vs) T("times_vs", "dxp", v_times_vs) T("over_vs", "dxp", v_over_vs)
    T("plus_sv", "dxp", v_plus_sv) T("minus_sv", "dxp", v_minus_sv) T("times_sv", "dxp", v_times_sv) T("over_sv", "dxp", v_over_sv)
#ifndef __ARM_NEON__
    T("neg", "dx", v_neg)
#endif
    T("frcp", "dx", v_frcp)
#endif
#endif
#endif
#ifdef G_MASK
    TM("hmin", "xo", m_hmin) TM("hmax", "xo", m_hmax) TM("hsum", "xo", m_hsum) TM("select", "dxyz", m_select) TM("gen_zero", "d", m_zero)
#if !HAS_MASK
    TM("gen_ones_1", "d", m_ones1)
#else
    TM("lt", "dxy", m_lt) TM("le", "dxy", m_le) TM("gt", "dxy", m_gt) TM("ge", "dxy", m_ge) TM("eq", "dxy", m_eq) TM("neq", "dxy", m_neq)
    TM("and", "dxy", m_and) TM("or", "dxy", m_or) TM("xor", "dxy", m_xor)
#if !defined(TYPE_DOUBLE) || !defined(__AVX__)
    TM("andnot", "dxy", m_andnot)
#endif
    TM("gen_sign_mask", "d", m_sign) TM("gen_abs_mask", "d", m_abs) TM("gen_one", "d", m_one) TM("gen_05", "d", m_05)
#ifndef __ARM_NEON__
    TM("gen_ones", "d", m_ones)
#endif
#ifndef TYPE_DOUBLE
    TM("gen_exp_mask", "d", m_exp) TM("gen_exp_mask_1", "d", m_exp1) TM("set_bitmask", "dp", m_set)
#endif
#endif
#endif
#ifdef G_INT
#define TI(op, kinds, fn) table.add("int", op, 'v', kinds, 0, fn);
    TI("iplus", "dxy", i_plus) TI("iminus", "dxy", i_minus) TI("iand", "dxy", i_and) TI("iandnot", "dxy", i_andnot) TI("ilt", "dxy", i_lt) TI("igt", "dxy", i_gt) TI("ieq", "dxy", i_eq)
    TI("slli", "dxp", i_sl) TI("srli", "dxp", i_sr) TI("ictor", "dp", i_ctor) TI("icopy", "dx", i_copy) TI("iassign", "dx", i_assign) TI("truncate", "dx", i_trunc) TI("convert", "dx", i_conv)
#endif
#ifdef G_ALIGN
    TA("is_aligned", al_is) TA("sizes", al_size) TA("load_aligned", al_la) TA("store_aligned", al_sa) TA("store_stream", al_ss) TA("both_aligned", al_aa) TA("unaligned", al_uu) TA("load_first", al_lf)
#endif
#ifdef G_UTILS
    TU("gen_sign_mask", "d", u_sign) TU("gen_abs_mask", "d", u_abs) TU("gen_one", "d", u_one) TU("gen_05", "d", u_05) TU("gen_025", "d", u_025)
    TU("extract_0", "xo", u_x0) TU("extract_3", "xo", u_x3) TU("hmin", "xo", u_hmin) TU("hmax", "xo", u_hmax) TU("select", "dxyz", u_select)
    table.add("reg", "dump", 'v', "", 0, u_dump); table.add("reg", "load", 'v', "", 0, u_load);
#endif
}
}
ADAPTER_EXPORTS
