From 4faf3f6043911166d65c2b41c3cac7ab0f41c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 01/21] fix: horizontal min/max: start from the first sample

numeric_limits<F>::min() is the smallest positive normal number, so the
maximum of an all-negative buffer and the minimum of an all-positive buffer
were wrong.
---
 simd_horizontal_functions.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..98a9dad 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -36,7 +36,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = *in;
     using namespace std;
 
     do {
@@ -49,8 +49,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
-    vec<F> current(init);
+    vec<F> current(*in);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -71,7 +70,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = *in;
     using namespace std;
 
     do {
@@ -84,8 +83,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
-    vec<F> current(init);
+    vec<F> current(*in);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -139,8 +137,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = *in;
+    F current_min = *in;
     using namespace std;
 
     do {
@@ -155,8 +153,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(*in);
+    vec<F> current_min(*in);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +176,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = *in;
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +192,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(*in);
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 161ec1f0e6225b0c40dd198f50c0f399d3e00415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 02/21] fix: ramp arguments: keep the slope in the sample type

the per-vector slope of double ramps was truncated to float
---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From 3ed66999d8ab428208bb0670d5111aacedc3daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 03/21] fix: copyvec_simd: do not read past the end of the
 source

the prefetching load of the last iteration read one vector behind the block
---
 simd_memory.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..2b3ad16 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -288,27 +288,15 @@ struct copyvec
         else
             val.load(src);
 
-        mp_iteration(dst, src + offset, val);
-    }
-
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> const & loaded_value)
-    {
-        vec<F> val;
-
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
-
-        store_aligned<dst_aligned>(loaded_value, dst);
-        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
+        store_aligned<dst_aligned>(val, dst);
+        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset);
     }
 };
 
 template <typename F, bool src_aligned, bool dst_aligned>
 struct copyvec<F, src_aligned, dst_aligned, 0>
 {
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> loaded_value)
+    static always_inline void mp_iteration(F * dst, const F * src)
     {}
 };
 
-- 
2.43.0


From aa1642be3fee5e43d11278fcaee069c791a5d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 04/21] fix: addvec: make the ramp overloads compile

---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 2b3ad16..d00a2b0 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -356,7 +356,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -448,7 +448,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -475,7 +475,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From 9f06e38a5c1572f305c5f58fcfabe9c86b2ca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 05/21] fix: peakmeter: process exactly n samples on every
 instruction set

the loop consumed four vectors per iteration, which is more than one
cacheline for avx floats and generic doubles: a block of one cacheline
underflowed the loop counter, other blocks lost their tail.
---
 simd_peakmeter.hpp | 55 ++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..1d8a1aa 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -54,29 +54,21 @@ inline F peak_vec(const F * in, F * peak, unsigned int n)
 template <typename F>
 inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 {
-    vec<F> maximum, abs3;
+    vec<F> maximum, last;
     maximum.load_first(peak);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = vec<F>::objects_per_cacheline;
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
-        in0.load_aligned(in);
-        in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
+        for (size_t i = 0; i != unroll; i += vec_size) {
+            vec<F> sample;
+            sample.load_aligned(in + i);
 
-        vec<F> abs0 = abs(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> abs2 = abs(in2);
-        abs3 = abs(in3);
-
-        vec<F> local_max = max_(max_(abs0, abs1),
-                               max_(abs2, abs3));
-
-        maximum = max_(maximum, local_max);
+            last = abs(sample);
+            maximum = max_(maximum, last);
+        }
         in += unroll;
     } while(--n);
 
@@ -84,7 +76,7 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     *peak = maximum.horizontal_max();
 
     /* return absolute of last sample */
-    return abs3.get(vec<F>::size - 1);
+    return last.get(vec<F>::size - 1);
 }
 
 /* updates peak and squared sum */
@@ -117,29 +109,16 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = vec<F>::objects_per_cacheline;
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
-        in0.load_aligned(in);
-        in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
-
-        vec<F> abs0 = abs(in0);
-        vec<F> sqr0 = square(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> sqr1 = square(in1);
-        vec<F> abs2 = abs(in2);
-        vec<F> sqr2 = square(in2);
-        vec<F> abs3 = abs(in3);
-        vec<F> sqr3 = square(in3);
-
-        vec<F> local_max = max_(max_(abs0, abs1),
-                                max_(abs2, abs3));
-        maximum = max_(maximum, local_max);
-
-        local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
+        for (size_t i = 0; i != unroll; i += vec_size) {
+            vec<F> sample;
+            sample.load_aligned(in + i);
+
+            maximum = max_(maximum, abs(sample));
+            local_squared_sum += square(sample);
+        }
 
         in += unroll;
     } while(--n);
-- 
2.43.0


From a6121b816b410e0de03471db3df2deae3089852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 06/21] fix: avx: load_first: clear the upper lanes

the upper half of _mm256_castps128_ps256/_mm256_castpd128_pd256 is undefined
---
 vec/vec_avx_double.hpp | 3 +--
 vec/vec_avx_float.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..81b85a1 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -141,8 +141,7 @@ public:
 
     void load_first(const double * data)
     {
-        clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(gen_zero(), _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..55aa4dd 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -147,8 +147,7 @@ public:
 
     void load_first(const float * data)
     {
-        clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(gen_zero(), _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From ebac9f6403e5ae7f84e4ee7a0ab44376ccfbc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 07/21] fix: avx: greater/greater_equal are false for unordered
 operands

nle/nlt are true if one operand is nan, unlike the scalar and sse versions
---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 81b85a1..ab795af 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -242,8 +242,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -271,8 +271,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 55aa4dd..eef17e2 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -283,8 +283,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -315,8 +315,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From 1c1edd7de8532efa96904038aa713bcd63e73bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 08/21] fix: horizontal_min/horizontal_max of __m128: include
 the last lane

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..add7806 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From 7d87decca2d549ce228dc3bff72402ea0bbaa01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 09/21] fix: sse2 rounding: return floats from 2**23 upwards
 unchanged

adding 2**23 rounded odd integers between 2**23 and 2**24 to even ones
---
 detail/vec_math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..2201f09 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -61,7 +61,9 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
 
-    return sign ^ rounded;
+    // values from 2**23 upwards are integral
+    const vec fractional = mask_lt(abs_arg, two_to_23_ps);
+    return sign ^ select(abs_arg, rounded, fractional);
 }
 
 template <typename VecType>
-- 
2.43.0


From 586a4d53099c6b49f5ddea4f91b39998770d37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 10/21] fix: trunc: do not convert via long

values outside of the range of long were not handled
---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..1ac79e9 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return arg < 0 ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From aba3d34c13b410c7fb8e83f0b6eef7ba7cb5591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:31 +0000
Subject: [PATCH 11/21] fix: vec_exp_float: saturate at the boundary

maxlogf itself overflowed to inf or nan
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 2201f09..c0ab7fc 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -156,7 +156,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0


From f4a38062d49e3cfa5c7caa97552b6454cea802bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 12/21] fix: vec_acos_float: acos(-0.5) was computed with the x
 < -0.5 formula

---
 detail/vec_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index c0ab7fc..9698418 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -410,7 +410,7 @@ always_inline VecType vec_asin_float(VecType const & arg)
 /* based on asin approximation:
  *
  * x < -0.5:        acos(x) = pi - 2.0 * asin( sqrt((1+x)/2) );
- * -0.5 < x < 0.5   acos(x) = pi/2 - asin(x)
+ * -0.5 <= x <= 0.5  acos(x) = pi/2 - asin(x)
  * x > 0.5          acos(x) =      2.0 * asin( sqrt((1-x)/2) ).
  *
  */
@@ -435,7 +435,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From 5d2de172db5f989f1310c41bbdb2bcee2931674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 13/21] fix: log2 before c++11: compute the factor in the
 argument type

the result for doubles only had float precision
---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 1ac79e9..15eced3 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -268,7 +268,7 @@ inline float_type log2(float_type arg)
 #if __cplusplus >= 201103L
     return std::log2(arg);
 #else
-    const float rlog2 = 1.f/std::log(2.f);
+    const float_type rlog2 = float_type(1)/std::log(float_type(2));
     return std::log(arg) * rlog2;
 #endif
 }
-- 
2.43.0


From d201951ceef1dd244aec2035a0034b23831cff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 14/21] fix: generic vec: is_aligned tests for the alignment of
 the element type

---
 vec/vec_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_generic.hpp b/vec/vec_generic.hpp
index e59cc9e..e6d28ca 100644
--- a/vec/vec_generic.hpp
+++ b/vec/vec_generic.hpp
@@ -104,7 +104,7 @@ public:
 
     static bool is_aligned(FloatType * ptr)
     {
-        return ((intptr_t)(ptr) & (intptr_t)(sizeof(float) - 1)) == 0;
+        return ((intptr_t)(ptr) & (intptr_t)(sizeof(FloatType) - 1)) == 0;
     }
 
     static vec gen_zero()
-- 
2.43.0


From 0c442f8090b88a6394821cf22a71b263660f9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:02 +0000
Subject: [PATCH 15/21] fix: neon: select returned the operands in the wrong
 order

---
 vec/vec_neon.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index 05460b0..78132aa 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -363,7 +363,7 @@ public:
 public:
     friend inline vec select(vec lhs, vec rhs, vec bitmask)
     {
-        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), lhs.data_, rhs.data_);
+        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), rhs.data_, lhs.data_);
     }
 
     /* @} */
-- 
2.43.0


From 51ebeb2b1f9d6ce3165853b2c394c91afcc17f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:02 +0000
Subject: [PATCH 16/21] fix: neon, altivec: andnot complemented the wrong
 operand

---
 vec/vec_altivec.hpp     | 2 +-
 vec/vec_int_altivec.hpp | 2 +-
 vec/vec_int_neon.hpp    | 2 +-
 vec/vec_neon.hpp        | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index d6eb849..83b383b 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -347,7 +347,7 @@ public:
 
     friend inline vec andnot(vec const & lhs, vec const & rhs)
     {
-        return vec_andc(lhs.data_, rhs.data_);
+        return vec_andc(rhs.data_, lhs.data_);
     }
 
 #undef BITWISE_OPERATOR
diff --git a/vec/vec_int_altivec.hpp b/vec/vec_int_altivec.hpp
index 6e1841a..67cfc55 100644
--- a/vec/vec_int_altivec.hpp
+++ b/vec/vec_int_altivec.hpp
@@ -99,7 +99,7 @@ public:
 
     friend inline int_vec_altivec andnot(int_vec_altivec const & lhs, int_vec_altivec const & rhs)
     {
-        return int_vec_altivec(vec_andc(lhs.data_, rhs.data_));
+        return int_vec_altivec(vec_andc(rhs.data_, lhs.data_));
     }
 
     // shift in zeros
diff --git a/vec/vec_int_neon.hpp b/vec/vec_int_neon.hpp
index 97863a7..7657cf9 100644
--- a/vec/vec_int_neon.hpp
+++ b/vec/vec_int_neon.hpp
@@ -82,7 +82,7 @@ struct int_vec_neon
 
     friend inline int_vec_neon andnot(int_vec_neon const & lhs, int_vec_neon const & rhs)
     {
-        return vandq_u32(lhs.data_, vmvnq_u32(rhs.data_));
+        return vandq_u32(vmvnq_u32(lhs.data_), rhs.data_);
     }
 
     // shift in zeros
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index 78132aa..cf86c20 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -339,8 +339,8 @@ public:
 
     friend inline vec andnot(vec const & lhs, vec const & rhs)
     {
-        return  vreinterpretq_f32_u32(vandq_u32(vreinterpretq_u32_f32(lhs.data_),
-                                                vmvnq_u32(vreinterpretq_u32_f32(rhs.data_))));;
+        return vreinterpretq_f32_u32(vandq_u32(vmvnq_u32(vreinterpretq_u32_f32(lhs.data_)),
+                                               vreinterpretq_u32_f32(rhs.data_)));
     }
 
 
-- 
2.43.0


From e0d2eea17791f2db975a689ad7a80e80ab520ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:33 +0000
Subject: [PATCH 17/21] fix: neon, altivec: undenormalize was missing

---
 vec/vec_altivec.hpp | 5 +++++
 vec/vec_neon.hpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 83b383b..e83006d 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -583,6 +583,11 @@ public:
     NOVA_SIMD_DELEGATE_UNARY_TO_BASE(signed_sqrt)
 
 #endif
+
+    friend inline vec undenormalize(vec const & arg)
+    {
+        return detail::vec_undenormalize(arg);
+    }
     /* @} */
 };
 
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index cf86c20..c512ca1 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -456,6 +456,11 @@ public:
 
     NOVA_SIMD_DELEGATE_UNARY_TO_BASE(tanh)
 
+    friend inline vec undenormalize(vec const & arg)
+    {
+        return detail::vec_undenormalize(arg);
+    }
+
 private:
     static float32x4_t vsqrtq_f32(float32x4_t arg)
     {
-- 
2.43.0


From 3cbb74792f4cfa0889c9f2a3694d9a052dfe0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:33 +0000
Subject: [PATCH 18/21] fix: neon, altivec: sqrt of zero and infinity was NaN

---
 vec/vec_altivec.hpp | 7 ++++++-
 vec/vec_neon.hpp    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index e83006d..4afd815 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -411,7 +411,12 @@ private:
     static internal_vector_type vec_sqrt(internal_vector_type const & arg)
     {
         // adapted from http://developer.apple.com/hardwaredrivers/ve/algorithms.html
-        return vec_mul(arg, vec_rsqrt(arg));
+        internal_vector_type result = vec_mul(arg, vec_rsqrt(arg));
+
+        // zero and infinity are their own square roots, but their products with the reciprocal are NaN
+        __vector unsigned int exact = vec_or((__vector unsigned int)vec_cmpeq(arg, gen_zero()),
+                                             (__vector unsigned int)vec_cmpeq(arg, gen_exp_mask()));
+        return vec_sel(result, arg, exact);
     }
 
 public:
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index c512ca1..e0b6c9a 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -467,7 +467,12 @@ private:
         float32x4_t reciprocal = vrsqrteq_f32(arg);
 
         // TODO: maybe we should do another newton-raphson iteration (see: qvrsqrtsq_f32)?
-        return vmulq_f32(arg, reciprocal);
+        float32x4_t result = vmulq_f32(arg, reciprocal);
+
+        // zero and infinity are their own square roots, but their products with the reciprocal are NaN
+        uint32x4_t exact = vorrq_u32(vceqq_f32(arg, gen_zero()),
+                                     vceqq_f32(arg, set_bitmask(0x7F800000)));
+        return vbslq_f32(exact, arg, result);
     }
 
 
-- 
2.43.0


From 0e5a01845a51065bb42908993d72c005cbec4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:33 +0000
Subject: [PATCH 19/21] fix: altivec: load and store ignored the low bits of
 unaligned addresses

---
 vec/vec_altivec.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 4afd815..23375de 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -153,7 +153,7 @@ public:
     /** io */
     void load(const float * data)
     {
-        base::data_ = vec_ld(0, data);
+        base::data_ = set_vector(data[0], data[1], data[2], data[3]);
     }
 
     void load_aligned(const float * data)
@@ -169,7 +169,8 @@ public:
 
     void store(float * dest) const
     {
-        vec_st(base::data_, 0, dest);
+        for (int i = 0; i != size; ++i)
+            dest[i] = base::get(i);
     }
 
     void store_aligned(float * dest) const
-- 
2.43.0


From 604f9f858d62b4b502420200a0d65779c1b1b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:33 +0000
Subject: [PATCH 20/21] fix: altivec: trunc and the integer conversions lost
 negative values

---
 vec/vec_altivec.hpp     | 4 ++--
 vec/vec_int_altivec.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 23375de..2d8e0b0 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -471,7 +471,7 @@ public:
 
     friend inline vec trunc(vec const & arg)
     {
-        return arg.truncate_to_int().convert_to_float();
+        return vec_trunc(arg.data_);
     }
 
     typedef detail::int_vec_altivec int_vec;
@@ -482,7 +482,7 @@ public:
 
     int_vec truncate_to_int(void) const
     {
-        return int_vec(vec_ctu(data_, 0));
+        return int_vec(vec_cts(data_, 0));
     }
     /* @} */
 
diff --git a/vec/vec_int_altivec.hpp b/vec/vec_int_altivec.hpp
index 67cfc55..e06bc57 100644
--- a/vec/vec_int_altivec.hpp
+++ b/vec/vec_int_altivec.hpp
@@ -116,7 +116,7 @@ public:
 
     inline fvec convert_to_float(void) const
     {
-        return vec_ctf(data_, 0);
+        return vec_ctf((__vector signed int)data_, 0);
     }
 };
 
-- 
2.43.0


From efd16dd960987fcaea4eaf4bee8ce898246cf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 21/21] fix: neon, altivec: integer comparisons treated
 negative numbers as large

---
 vec/vec_int_altivec.hpp | 2 +-
 vec/vec_int_neon.hpp    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/vec/vec_int_altivec.hpp b/vec/vec_int_altivec.hpp
index e06bc57..d0cedd3 100644
--- a/vec/vec_int_altivec.hpp
+++ b/vec/vec_int_altivec.hpp
@@ -83,7 +83,7 @@ public:
     #define RELATIONAL_MASK_OPERATOR(op, opcode) \
     friend inline int_vec_altivec mask_##op(int_vec_altivec const & lhs, int_vec_altivec const & rhs) \
     { \
-        return int_vec_altivec((ivec)opcode(lhs.data_, rhs.data_)); \
+        return int_vec_altivec((ivec)opcode((__vector signed int)lhs.data_, (__vector signed int)rhs.data_)); \
     }
 
     RELATIONAL_MASK_OPERATOR(lt, vec_cmplt)
diff --git a/vec/vec_int_neon.hpp b/vec/vec_int_neon.hpp
index 7657cf9..9b14823 100644
--- a/vec/vec_int_neon.hpp
+++ b/vec/vec_int_neon.hpp
@@ -66,12 +66,12 @@ struct int_vec_neon
 #define RELATIONAL_MASK_OPERATOR(op, opcode)                                                    \
     friend inline int_vec_neon mask_##op(int_vec_neon const & lhs, int_vec_neon const & rhs)    \
     {                                                                                           \
-        return opcode(lhs.data_, rhs.data_);                                                    \
+        return opcode(vreinterpretq_s32_u32(lhs.data_), vreinterpretq_s32_u32(rhs.data_));      \
     }
 
-    RELATIONAL_MASK_OPERATOR(lt, vcltq_u32)
-    RELATIONAL_MASK_OPERATOR(gt, vcgtq_u32)
-    RELATIONAL_MASK_OPERATOR(eq, vceqq_u32)
+    RELATIONAL_MASK_OPERATOR(lt, vcltq_s32)
+    RELATIONAL_MASK_OPERATOR(gt, vcgtq_s32)
+    RELATIONAL_MASK_OPERATOR(eq, vceqq_s32)
 
 #undef RELATIONAL_MASK_OPERATOR
 
-- 
2.43.0

