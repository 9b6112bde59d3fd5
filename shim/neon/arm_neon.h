/* The Advanced SIMD intrinsics the library uses, written out lane by lane after the ARM Architecture Reference Manual,
 * so that the NEON back end can be compiled and run on x86.  Denormals are not flushed (the checks do not judge them). */
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
#define NEON_FN static inline __attribute__((unused))
#define NEON_LANES for (int i = 0; i < 4; ++i)
NEON_FN float32x4_t vdupq_n_f32(float32_t x) { float32x4_t r = { x, x, x, x }; return r; }
NEON_FN uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = { x, x, x, x }; return r; }
NEON_FN int32x4_t vdupq_n_s32(int32_t x) { int32x4_t r = { x, x, x, x }; return r; }
NEON_FN float32x4_t vmovq_n_f32(float32_t x) { return vdupq_n_f32(x); }
NEON_FN float32x4_t vsetq_lane_f32(float32_t x, float32x4_t v, int lane) { v[lane] = x; return v; }
NEON_FN float32_t vgetq_lane_f32(float32x4_t v, int lane) { return v[lane]; }
NEON_FN float32_t vget_lane_f32(float32x2_t v, int lane) { return v[lane]; }
NEON_FN float32x2_t vget_high_f32(float32x4_t v) { float32x2_t r = { v[2], v[3] }; return r; }
NEON_FN float32x2_t vget_low_f32(float32x4_t v) { float32x2_t r = { v[0], v[1] }; return r; }
NEON_FN float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = { a[0], a[1], b[0], b[1] }; return r; }
NEON_FN float32x4_t vld1q_f32(const float32_t * p) { float32x4_t r; memcpy(&r, p, sizeof r); return r; }
NEON_FN float32x4_t vld1q_dup_f32(const float32_t * p) { return vdupq_n_f32(*p); }
NEON_FN void vst1q_f32(float32_t * p, float32x4_t v) { memcpy(p, &v, sizeof v); }
NEON_FN float32x4_t vreinterpretq_f32_u32(uint32x4_t v) { return (float32x4_t)v; }
NEON_FN float32x4_t vreinterpretq_f32_s32(int32x4_t v) { return (float32x4_t)v; }
NEON_FN uint32x4_t vreinterpretq_u32_f32(float32x4_t v) { return (uint32x4_t)v; }
NEON_FN uint32x4_t vreinterpretq_u32_s32(int32x4_t v) { return (uint32x4_t)v; }
NEON_FN int32x4_t vreinterpretq_s32_u32(uint32x4_t v) { return (int32x4_t)v; }
NEON_FN int32x4_t vreinterpretq_s32_f32(float32x4_t v) { return (int32x4_t)v; }
NEON_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_FN float32x4_t vmulq_n_f32(float32x4_t a, float32_t b) { return a * vdupq_n_f32(b); }
NEON_FN float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a + p; }
NEON_FN float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a - p; }
NEON_FN float32x4_t vnegq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a ^ vdupq_n_u32(0x80000000u)); }
NEON_FN float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & vdupq_n_u32(0x7fffffffu)); }
NEON_FN float32_t neon_max1(float32_t a, float32_t b) { return a != a || b != b ? NAN : a == b ? (signbit(a) ? b : a) : a > b ? a : b; }
NEON_FN float32_t neon_min1(float32_t a, float32_t b) { return a != a || b != b ? NAN : a == b ? (signbit(a) ? a : b) : a < b ? a : b; }
NEON_FN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_LANES r[i] = neon_max1(a[i], b[i]); return r; }
NEON_FN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_LANES r[i] = neon_min1(a[i], b[i]); return r; }
NEON_FN float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = { neon_max1(a[0], b[0]), neon_max1(a[1], b[1]) }; return r; }
NEON_FN float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = { neon_min1(a[0], b[0]), neon_min1(a[1], b[1]) }; return r; }
NEON_FN float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = { neon_max1(a[0], a[1]), neon_max1(b[0], b[1]) }; return r; }
NEON_FN float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = { neon_min1(a[0], a[1]), neon_min1(b[0], b[1]) }; return r; }
NEON_FN float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
NEON_FN float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r = { a[0] + a[1], b[0] + b[1] }; return r; }
NEON_FN float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; NEON_LANES r[i] = fmaf(b[i], c[i], a[i]); return r; }
NEON_FN float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; NEON_LANES r[i] = fmaf(-b[i], c[i], a[i]); return r; }
NEON_FN float32x2_t vdup_n_f32(float32_t x) { float32x2_t r = { x, x }; return r; }
NEON_FN float32x2_t vsub_f32(float32x2_t a, float32x2_t b) { return a - b; }
NEON_FN float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
NEON_FN void vst1q_lane_f32(float32_t * p, float32x4_t v, int lane) { *p = v[lane]; }
NEON_FN float32x4_t vld1q_lane_f32(const float32_t * p, float32x4_t v, int lane) { v[lane] = *p; return v; }
NEON_FN uint32x4_t vld1q_u32(const uint32_t * p) { uint32x4_t r; memcpy(&r, p, sizeof r); return r; }
NEON_FN void vst1q_u32(uint32_t * p, uint32x4_t v) { memcpy(p, &v, sizeof v); }
NEON_FN uint32_t vgetq_lane_u32(uint32x4_t v, int lane) { return v[lane]; }
NEON_FN uint32x4_t vsetq_lane_u32(uint32_t x, uint32x4_t v, int lane) { v[lane] = x; return v; }
NEON_FN uint32x4_t vornq_u32(uint32x4_t a, uint32x4_t b) { return a | ~b; }
NEON_FN int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
NEON_FN int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
NEON_FN int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a + (uint32x4_t)b); }
NEON_FN int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a - (uint32x4_t)b); }
NEON_FN uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
NEON_FN uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
NEON_FN uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
NEON_FN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
NEON_FN uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
NEON_FN uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
NEON_FN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
NEON_FN float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
NEON_FN uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (m & a) | (~m & b); }
NEON_FN uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a + b; }
NEON_FN uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return a - b; }
/* shift by the signed low byte of the second operand; negative counts shift right */
NEON_FN uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t n)
{
    uint32x4_t r;
    NEON_LANES { int8_t c = (int8_t)n[i]; r[i] = c >= 32 || c <= -32 ? 0 : c >= 0 ? a[i] << c : a[i] >> -c; }
    return r;
}
#define vshlq_n_u32(a, n) vshlq_u32(a, vdupq_n_s32(n))
#define vshrq_n_u32(a, n) vshlq_u32(a, vdupq_n_s32(-(n)))
NEON_FN int32x4_t vcvtq_s32_f32(float32x4_t a)           /* towards zero, saturating, NaN gives 0 */
{
    int32x4_t r;
    NEON_LANES r[i] = a[i] != a[i] ? 0 : a[i] >= 2147483648.f ? 2147483647 : a[i] <= -2147483648.f ? (-2147483647 - 1) : (int32_t)a[i];
    return r;
}
NEON_FN uint32x4_t vcvtq_u32_f32(float32x4_t a)
{
    uint32x4_t r;
    NEON_LANES r[i] = !(a[i] > 0) ? 0 : a[i] >= 4294967296.f ? 4294967295u : (uint32_t)a[i];
    return r;
}
NEON_FN float32x4_t vcvtq_f32_s32(int32x4_t a) { float32x4_t r; NEON_LANES r[i] = (float32_t)a[i]; return r; }
NEON_FN float32x4_t vcvtq_f32_u32(uint32x4_t a) { float32x4_t r; NEON_LANES r[i] = (float32_t)a[i]; return r; }
/* estimates carry eight bits; the mantissa is cut there */
NEON_FN float32_t neon_cut(double x) { float32_t f = (float32_t)x; uint32_t u; memcpy(&u, &f, 4); u = (u + 0x4000u) & 0xffff8000u; memcpy(&f, &u, 4); return f; }
NEON_FN float32x4_t vrecpeq_f32(float32x4_t a)
{
    float32x4_t r;
    NEON_LANES {
        float32_t x = a[i], m = fabsf(x);
        r[i] = x != x ? NAN : m < 1.17549435e-38f ? copysignf(INFINITY, x) : m >= 8.507059173023462e+37f ? copysignf(0.f, x) : neon_cut(1. / (double)x);
    }
    return r;
}
NEON_FN float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
{
    float32x4_t r;
    NEON_LANES r[i] = (a[i] == 0 && isinf(b[i])) || (isinf(a[i]) && b[i] == 0) ? 2.f : 2.f - a[i] * b[i];
    return r;
}
NEON_FN float32x4_t vrsqrteq_f32(float32x4_t a)
{
    float32x4_t r;
    NEON_LANES {
        float32_t x = a[i];
        r[i] = x != x ? NAN : fabsf(x) < 1.17549435e-38f ? copysignf(INFINITY, x) : x < 0 ? NAN : isinf(x) ? 0.f : neon_cut(1. / sqrt((double)x));
    }
    return r;
}
NEON_FN float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b)
{
    float32x4_t r;
    NEON_LANES r[i] = (a[i] == 0 && isinf(b[i])) || (isinf(a[i]) && b[i] == 0) ? 1.5f : (3.f - a[i] * b[i]) / 2.f;
    return r;
}
/* further intrinsics a rewrite of the back end may use */
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
NEON_FN int32x4_t vmovq_n_s32(int32_t x) { return vdupq_n_s32(x); }
NEON_FN uint32x4_t vmovq_n_u32(uint32_t x) { return vdupq_n_u32(x); }
NEON_FN float32x2_t vmov_n_f32(float32_t x) { return vdup_n_f32(x); }
NEON_FN float32x4_t vdupq_lane_f32(float32x2_t v, int lane) { return vdupq_n_f32(v[lane]); }
NEON_FN float32x4_t vdupq_laneq_f32(float32x4_t v, int lane) { return vdupq_n_f32(v[lane]); }
NEON_FN float32x2_t vdup_lane_f32(float32x2_t v, int lane) { return vdup_n_f32(v[lane]); }
NEON_FN float32x2_t vset_lane_f32(float32_t x, float32x2_t v, int lane) { v[lane] = x; return v; }
NEON_FN float32x2_t vld1_f32(const float32_t * p) { float32x2_t r; memcpy(&r, p, sizeof r); return r; }
NEON_FN void vst1_f32(float32_t * p, float32x2_t v) { memcpy(p, &v, sizeof v); }
NEON_FN int32x4_t vld1q_s32(const int32_t * p) { int32x4_t r; memcpy(&r, p, sizeof r); return r; }
NEON_FN void vst1q_s32(int32_t * p, int32x4_t v) { memcpy(p, &v, sizeof v); }
NEON_FN int32_t vgetq_lane_s32(int32x4_t v, int lane) { return v[lane]; }
NEON_FN int32x4_t vsetq_lane_s32(int32_t x, int32x4_t v, int lane) { v[lane] = x; return v; }
NEON_FN float32x2_t vrev64_f32(float32x2_t a) { float32x2_t r = { a[1], a[0] }; return r; }
NEON_FN float32x4_t vrev64q_f32(float32x4_t a) { float32x4_t r = { a[1], a[0], a[3], a[2] }; return r; }
NEON_FN float32x4_t vextq_f32(float32x4_t a, float32x4_t b, int n) { float32x4_t r; NEON_LANES r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
NEON_FN float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r = { a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3] }; return r; }
NEON_FN float32_t vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON_FN float32_t vmaxvq_f32(float32x4_t a) { return neon_max1(neon_max1(a[0], a[1]), neon_max1(a[2], a[3])); }
NEON_FN float32_t vminvq_f32(float32x4_t a) { return neon_min1(neon_min1(a[0], a[1]), neon_min1(a[2], a[3])); }
NEON_FN float32x2_t vneg_f32(float32x2_t a) { return -a; }
NEON_FN float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float32_t c) { return vmlaq_f32(a, b, vdupq_n_f32(c)); }
NEON_FN float32x4_t vmlsq_n_f32(float32x4_t a, float32x4_t b, float32_t c) { return vmlsq_f32(a, b, vdupq_n_f32(c)); }
NEON_FN float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float32_t c) { return vfmaq_f32(a, b, vdupq_n_f32(c)); }
NEON_FN float32x4_t vabdq_f32(float32x4_t a, float32x4_t b) { return vabsq_f32(a - b); }
NEON_FN float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NEON_FN float32x4_t vsqrtq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = sqrtf(a[i]); return r; }
NEON_FN float32x4_t vrndq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = truncf(a[i]); return r; }
NEON_FN float32x4_t vrndmq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = floorf(a[i]); return r; }
NEON_FN float32x4_t vrndpq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = ceilf(a[i]); return r; }
NEON_FN float32x4_t vrndnq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = nearbyintf(a[i]); return r; }
NEON_FN float32x4_t vrndaq_f32(float32x4_t a) { float32x4_t r; NEON_LANES r[i] = roundf(a[i]); return r; }
NEON_FN int32x4_t vcvtnq_s32_f32(float32x4_t a) { return vcvtq_s32_f32(vrndnq_f32(a)); }
NEON_FN int32x4_t vcvtmq_s32_f32(float32x4_t a) { return vcvtq_s32_f32(vrndmq_f32(a)); }
NEON_FN int32x4_t vcvtpq_s32_f32(float32x4_t a) { return vcvtq_s32_f32(vrndpq_f32(a)); }
NEON_FN uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(vabsq_f32(a), vabsq_f32(b)); }
NEON_FN uint32x4_t vcageq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(vabsq_f32(a), vabsq_f32(b)); }
NEON_FN uint32x4_t vcaltq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(vabsq_f32(b), vabsq_f32(a)); }
NEON_FN uint32x4_t vcaleq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(vabsq_f32(b), vabsq_f32(a)); }
NEON_FN uint32x4_t vceqzq_f32(float32x4_t a) { return vceqq_f32(a, vdupq_n_f32(0)); }
NEON_FN uint32x4_t vcgtzq_f32(float32x4_t a) { return vcgtq_f32(a, vdupq_n_f32(0)); }
NEON_FN uint32x4_t vcltzq_f32(float32x4_t a) { return vcltq_f32(a, vdupq_n_f32(0)); }
NEON_FN uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a >= b); }
NEON_FN uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a <= b); }
NEON_FN uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a >= b); }
NEON_FN uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a <= b); }
NEON_FN uint32x4_t vtstq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((a & b) != vdupq_n_u32(0)); }
NEON_FN int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
NEON_FN int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
NEON_FN int32x4_t vornq_s32(int32x4_t a, int32x4_t b) { return a | ~b; }
NEON_FN int32x4_t vmvnq_s32(int32x4_t a) { return ~a; }
NEON_FN int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { return (int32x4_t)vbslq_u32(m, (uint32x4_t)a, (uint32x4_t)b); }
NEON_FN uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { return a * b; }
NEON_FN int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a * (uint32x4_t)b); }
NEON_FN int32x4_t vnegq_s32(int32x4_t a) { return (int32x4_t)(vdupq_n_u32(0) - (uint32x4_t)a); }
NEON_FN int32x4_t vabsq_s32(int32x4_t a) { return vbslq_s32(vcltq_s32(a, vdupq_n_s32(0)), vnegq_s32(a), a); }
NEON_FN int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { return vbslq_s32(vcgtq_s32(a, b), a, b); }
NEON_FN int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { return vbslq_s32(vcltq_s32(a, b), a, b); }
NEON_FN uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { return vbslq_u32(vcgtq_u32(a, b), a, b); }
NEON_FN uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { return vbslq_u32(vcltq_u32(a, b), a, b); }
NEON_FN int32x4_t vshlq_s32(int32x4_t a, int32x4_t n)
{
    int32x4_t r;
    NEON_LANES { int8_t c = (int8_t)n[i]; r[i] = c >= 32 ? 0 : c <= -32 ? (a[i] < 0 ? -1 : 0) : c >= 0 ? (int32_t)((uint32_t)a[i] << c) : a[i] >> -c; }
    return r;
}
#define vshlq_n_s32(a, n) vshlq_s32(a, vdupq_n_s32(n))
#define vshrq_n_s32(a, n) vshlq_s32(a, vdupq_n_s32(-(n)))
NEON_FN int32x4_t vqaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_LANES { int64_t t = (int64_t)a[i] + b[i]; r[i] = t > 2147483647 ? 2147483647 : t < -2147483647 - 1ll ? -2147483647 - 1 : (int32_t)t; } return r; }
NEON_FN int32x4_t vqsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_LANES { int64_t t = (int64_t)a[i] - b[i]; r[i] = t > 2147483647 ? 2147483647 : t < -2147483647 - 1ll ? -2147483647 - 1 : (int32_t)t; } return r; }
NEON_FN uint32x4_t vqaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_LANES { uint64_t t = (uint64_t)a[i] + b[i]; r[i] = t > 4294967295u ? 4294967295u : (uint32_t)t; } return r; }
NEON_FN uint32x4_t vqsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_LANES r[i] = a[i] < b[i] ? 0 : a[i] - b[i]; return r; }
NEON_FN float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = { { { a[0], b[0], a[1], b[1] }, { a[2], b[2], a[3], b[3] } } }; return r; }
NEON_FN float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = { { { a[0], a[2], b[0], b[2] }, { a[1], a[3], b[1], b[3] } } }; return r; }
#endif
