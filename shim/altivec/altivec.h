/* The AltiVec intrinsics the library uses, written out after the AltiVec Programming Interface Manual (big-endian lane
 * numbering does not matter to them), so that the PowerPC back end can be compiled and run on x86. */
#ifndef VERIF_ALTIVEC_H
#define VERIF_ALTIVEC_H
#include <stdint.h>
#include <string.h>
#include <math.h>
#define __vector __attribute__((vector_size(16)))
typedef float alti_f __attribute__((vector_size(16)));
typedef unsigned int alti_u __attribute__((vector_size(16)));
typedef int alti_i __attribute__((vector_size(16)));
#define ALTI_FN static inline __attribute__((unused))
#define ALTI_LANES for (int i = 0; i < 4; ++i)
#define vec_splat_u32(x) ((alti_u){ (unsigned)(x), (unsigned)(x), (unsigned)(x), (unsigned)(x) })
#define vec_splat_s32(x) ((alti_i){ (x), (x), (x), (x) })
/* loads and stores ignore the low four address bits */
ALTI_FN alti_f vec_ld(long off, const float * p) { alti_f r; memcpy(&r, (const void *)(((uintptr_t)p + off) & ~(uintptr_t)15), 16); return r; }
ALTI_FN void vec_st(alti_f v, long off, float * p) { memcpy((void *)(((uintptr_t)p + off) & ~(uintptr_t)15), &v, 16); }
ALTI_FN alti_f vec_add(alti_f a, alti_f b) { return a + b; }
ALTI_FN alti_u vec_add(alti_u a, alti_u b) { return a + b; }
ALTI_FN alti_i vec_add(alti_i a, alti_i b) { return (alti_i)((alti_u)a + (alti_u)b); }
ALTI_FN alti_f vec_sub(alti_f a, alti_f b) { return a - b; }
ALTI_FN alti_u vec_sub(alti_u a, alti_u b) { return a - b; }
ALTI_FN alti_i vec_sub(alti_i a, alti_i b) { return (alti_i)((alti_u)a - (alti_u)b); }
ALTI_FN alti_f vec_madd(alti_f a, alti_f b, alti_f c) { alti_f r; ALTI_LANES r[i] = fmaf(a[i], b[i], c[i]); return r; }
ALTI_FN alti_f vec_nmsub(alti_f a, alti_f b, alti_f c) { alti_f r; ALTI_LANES r[i] = -fmaf(a[i], b[i], -c[i]); return r; }
/* estimates: one part in 4096 */
ALTI_FN float alti_cut(double x) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); u = (u + 0x200u) & 0xfffffc00u; memcpy(&f, &u, 4); return f; }
ALTI_FN alti_f vec_re(alti_f a) { alti_f r; ALTI_LANES r[i] = alti_cut(1. / (double)a[i]); return r; }
ALTI_FN alti_f vec_rsqrte(alti_f a) { alti_f r; ALTI_LANES r[i] = alti_cut(1. / sqrt((double)a[i])); return r; }
ALTI_FN alti_i vec_cmpeq(alti_f a, alti_f b) { return a == b; }
ALTI_FN alti_i vec_cmplt(alti_f a, alti_f b) { return a < b; }
ALTI_FN alti_i vec_cmpgt(alti_f a, alti_f b) { return a > b; }
ALTI_FN alti_i vec_cmpge(alti_f a, alti_f b) { return a >= b; }
ALTI_FN alti_i vec_cmple(alti_f a, alti_f b) { return a <= b; }
ALTI_FN alti_i vec_cmpeq(alti_u a, alti_u b) { return (alti_i)(a == b); }
ALTI_FN alti_i vec_cmplt(alti_u a, alti_u b) { return (alti_i)(a < b); }
ALTI_FN alti_i vec_cmpgt(alti_u a, alti_u b) { return (alti_i)(a > b); }
ALTI_FN alti_i vec_cmpeq(alti_i a, alti_i b) { return a == b; }
ALTI_FN alti_i vec_cmplt(alti_i a, alti_i b) { return a < b; }
ALTI_FN alti_i vec_cmpgt(alti_i a, alti_i b) { return a > b; }
#define ALTI_BIT(NAME, EXPR) \
    ALTI_FN alti_u NAME(alti_u a, alti_u b) { return EXPR; } \
    ALTI_FN alti_i NAME(alti_i x, alti_i y) { alti_u a = (alti_u)x, b = (alti_u)y; return (alti_i)(EXPR); } \
    ALTI_FN alti_f NAME(alti_f x, alti_f y) { alti_u a = (alti_u)x, b = (alti_u)y; return (alti_f)(EXPR); } \
    ALTI_FN alti_f NAME(alti_f x, alti_i y) { alti_u a = (alti_u)x, b = (alti_u)y; return (alti_f)(EXPR); } \
    ALTI_FN alti_f NAME(alti_i x, alti_f y) { alti_u a = (alti_u)x, b = (alti_u)y; return (alti_f)(EXPR); }
ALTI_BIT(vec_and, a & b)
ALTI_BIT(vec_or, a | b)
ALTI_BIT(vec_xor, a ^ b)
ALTI_BIT(vec_andc, a & ~b)
ALTI_BIT(vec_nor, ~(a | b))
ALTI_FN alti_f vec_sel(alti_f a, alti_f b, alti_u m) { return (alti_f)(((alti_u)a & ~m) | ((alti_u)b & m)); }
ALTI_FN alti_f vec_sel(alti_f a, alti_f b, alti_i m) { return vec_sel(a, b, (alti_u)m); }
ALTI_FN alti_f vec_abs(alti_f a) { return (alti_f)((alti_u)a & vec_splat_u32(0x7fffffffu)); }
ALTI_FN alti_f vec_max(alti_f a, alti_f b) { alti_f r; ALTI_LANES r[i] = a[i] != a[i] || b[i] != b[i] ? NAN : a[i] == b[i] ? (signbit(a[i]) ? b[i] : a[i]) : a[i] > b[i] ? a[i] : b[i]; return r; }
ALTI_FN alti_f vec_min(alti_f a, alti_f b) { alti_f r; ALTI_LANES r[i] = a[i] != a[i] || b[i] != b[i] ? NAN : a[i] == b[i] ? (signbit(a[i]) ? a[i] : b[i]) : a[i] < b[i] ? a[i] : b[i]; return r; }
ALTI_FN alti_f vec_floor(alti_f a) { alti_f r; ALTI_LANES r[i] = floorf(a[i]); return r; }
ALTI_FN alti_f vec_ceil(alti_f a) { alti_f r; ALTI_LANES r[i] = ceilf(a[i]); return r; }
ALTI_FN alti_f vec_trunc(alti_f a) { alti_f r; ALTI_LANES r[i] = truncf(a[i]); return r; }
ALTI_FN alti_f vec_round(alti_f a) { alti_f r; ALTI_LANES r[i] = nearbyintf(a[i]); return r; }
/* conversions: towards zero, saturating, NaN gives 0 */
ALTI_FN alti_u vec_ctu(alti_f a, int s) { alti_u r; ALTI_LANES { double x = ldexp((double)a[i], s); r[i] = !(x > 0) ? 0 : x >= 4294967296. ? 4294967295u : (unsigned)x; } return r; }
ALTI_FN alti_i vec_cts(alti_f a, int s) { alti_i r; ALTI_LANES { double x = ldexp((double)a[i], s); r[i] = x != x ? 0 : x >= 2147483648. ? 2147483647 : x <= -2147483648. ? -2147483647 - 1 : (int)x; } return r; }
ALTI_FN alti_f vec_ctf(alti_u a, int s) { alti_f r; ALTI_LANES r[i] = (float)ldexp((double)a[i], -s); return r; }
ALTI_FN alti_f vec_ctf(alti_i a, int s) { alti_f r; ALTI_LANES r[i] = (float)ldexp((double)a[i], -s); return r; }
ALTI_FN alti_u vec_sl(alti_u a, alti_u n) { alti_u r; ALTI_LANES r[i] = a[i] << (n[i] & 31); return r; }
ALTI_FN alti_u vec_sr(alti_u a, alti_u n) { alti_u r; ALTI_LANES r[i] = a[i] >> (n[i] & 31); return r; }
/* further intrinsics a rewrite of the back end may use */
typedef unsigned char alti_b __attribute__((vector_size(16)));
typedef signed char alti_c __attribute__((vector_size(16)));
ALTI_FN alti_u vec_ld(long off, const unsigned * p) { return (alti_u)vec_ld(off, (const float *)p); }
ALTI_FN alti_i vec_ld(long off, const int * p) { return (alti_i)vec_ld(off, (const float *)p); }
ALTI_FN void vec_st(alti_u v, long off, unsigned * p) { vec_st((alti_f)v, off, (float *)p); }
ALTI_FN void vec_st(alti_i v, long off, int * p) { vec_st((alti_f)v, off, (float *)p); }
ALTI_FN alti_f vec_ldl(long off, const float * p) { return vec_ld(off, p); }
ALTI_FN void vec_stl(alti_f v, long off, float * p) { vec_st(v, off, p); }
ALTI_FN alti_f vec_splats(float x) { alti_f r = { x, x, x, x }; return r; }
ALTI_FN alti_u vec_splats(unsigned x) { return vec_splat_u32(x); }
ALTI_FN alti_i vec_splats(int x) { return vec_splat_s32(x); }
ALTI_FN alti_f vec_splat(alti_f a, int n) { return vec_splats(a[n & 3]); }
ALTI_FN alti_u vec_splat(alti_u a, int n) { return vec_splats(a[n & 3]); }
ALTI_FN alti_i vec_splat(alti_i a, int n) { return vec_splats(a[n & 3]); }
ALTI_FN float vec_extract(alti_f a, int n) { return a[n & 3]; }
ALTI_FN alti_f vec_insert(float x, alti_f a, int n) { a[n & 3] = x; return a; }
ALTI_FN alti_f vec_mergeh(alti_f a, alti_f b) { alti_f r = { a[0], b[0], a[1], b[1] }; return r; }
ALTI_FN alti_f vec_mergel(alti_f a, alti_f b) { alti_f r = { a[2], b[2], a[3], b[3] }; return r; }
ALTI_FN alti_b vec_lvsl(int off, const float * p) { alti_b r; int s = (int)(((uintptr_t)p + off) & 15); for (int i = 0; i < 16; ++i) r[i] = (unsigned char)(s + i); return r; }
ALTI_FN alti_b vec_lvsr(int off, const float * p) { alti_b r; int s = (int)(((uintptr_t)p + off) & 15); for (int i = 0; i < 16; ++i) r[i] = (unsigned char)(16 - s + i); return r; }
ALTI_FN alti_f vec_perm(alti_f a, alti_f b, alti_b m) { unsigned char t[32], o[16]; memcpy(t, &a, 16); memcpy(t + 16, &b, 16); for (int i = 0; i < 16; ++i) o[i] = t[m[i] & 31]; alti_f r; memcpy(&r, o, 16); return r; }
ALTI_FN alti_f vec_sld(alti_f a, alti_f b, int n) { unsigned char t[32]; memcpy(t, &a, 16); memcpy(t + 16, &b, 16); alti_f r; memcpy(&r, t + (n & 15), 16); return r; }
ALTI_FN alti_u vec_sel(alti_u a, alti_u b, alti_u m) { return (a & ~m) | (b & m); }
ALTI_FN alti_u vec_sel(alti_u a, alti_u b, alti_i m) { return vec_sel(a, b, (alti_u)m); }
ALTI_FN alti_i vec_sel(alti_i a, alti_i b, alti_u m) { return (alti_i)vec_sel((alti_u)a, (alti_u)b, m); }
ALTI_FN alti_i vec_sel(alti_i a, alti_i b, alti_i m) { return (alti_i)vec_sel((alti_u)a, (alti_u)b, (alti_u)m); }
ALTI_FN alti_i vec_max(alti_i a, alti_i b) { return vec_sel(a, b, b > a); }
ALTI_FN alti_i vec_min(alti_i a, alti_i b) { return vec_sel(a, b, b < a); }
ALTI_FN alti_u vec_max(alti_u a, alti_u b) { return vec_sel(a, b, (alti_u)(b > a)); }
ALTI_FN alti_u vec_min(alti_u a, alti_u b) { return vec_sel(a, b, (alti_u)(b < a)); }
ALTI_FN alti_i vec_sl(alti_i a, alti_u n) { return (alti_i)vec_sl((alti_u)a, n); }
ALTI_FN alti_i vec_sr(alti_i a, alti_u n) { return (alti_i)vec_sr((alti_u)a, n); }
ALTI_FN alti_i vec_sra(alti_i a, alti_u n) { alti_i r; ALTI_LANES r[i] = a[i] >> (n[i] & 31); return r; }
ALTI_FN alti_u vec_sra(alti_u a, alti_u n) { return (alti_u)vec_sra((alti_i)a, n); }
ALTI_FN alti_u vec_rl(alti_u a, alti_u n) { alti_u r; ALTI_LANES { unsigned k = n[i] & 31; r[i] = k ? a[i] << k | a[i] >> (32 - k) : a[i]; } return r; }
ALTI_FN alti_i vec_adds(alti_i a, alti_i b) { alti_i r; ALTI_LANES { long long t = (long long)a[i] + b[i]; r[i] = t > 2147483647 ? 2147483647 : t < -2147483648ll ? -2147483647 - 1 : (int)t; } return r; }
ALTI_FN alti_i vec_subs(alti_i a, alti_i b) { alti_i r; ALTI_LANES { long long t = (long long)a[i] - b[i]; r[i] = t > 2147483647 ? 2147483647 : t < -2147483648ll ? -2147483647 - 1 : (int)t; } return r; }
ALTI_FN alti_u vec_adds(alti_u a, alti_u b) { alti_u r; ALTI_LANES { unsigned long long t = (unsigned long long)a[i] + b[i]; r[i] = t > 4294967295u ? 4294967295u : (unsigned)t; } return r; }
ALTI_FN alti_u vec_subs(alti_u a, alti_u b) { alti_u r; ALTI_LANES r[i] = a[i] < b[i] ? 0 : a[i] - b[i]; return r; }
#define vec_rint vec_round
#endif
