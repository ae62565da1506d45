From e6993eeff476bfd46e2a65ed9db02e324508e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 01/59] fix: ordered comparison for float >= (SSE) and >=, >
 (AVX, non-GCC) on NaN

x >= NaN returned true with SSE (cmpnlt), unlike the scalar and the AVX/GCC
implementations. The non-GCC AVX paths had the same defect for >= and >.
---
 Vc/avx/intrinsics.h | 8 ++++----
 Vc/sse/vector.tcc   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Vc/avx/intrinsics.h b/Vc/avx/intrinsics.h
index 492e6b0..2122929 100644
--- a/Vc/avx/intrinsics.h
+++ b/Vc/avx/intrinsics.h
@@ -180,16 +180,16 @@ namespace AvxIntrinsics
     Vc_INTRINSIC __m256d cmpeq_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256d cmpneq_pd  (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256d cmplt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256d cmple_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GT_OS); }
 
     Vc_INTRINSIC __m256  cmpeq_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256  cmpneq_ps  (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256  cmplt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256  cmple_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GT_OS); }
 #endif
     Vc_INTRINSIC __m256d cmpnlt_pd  (__m256d a, __m256d b) { return cmpge_pd(a, b); }
     Vc_INTRINSIC __m256d cmpnle_pd  (__m256d a, __m256d b) { return cmpgt_pd(a, b); }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From 4fcc6e6287002b9291d2b7f100701b245a1dbbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 02/59] fix: let Zero()/One() of split SimdMaskArrays compile

The one-register specialization returned SimdMaskArray, which does not
convert to the storage type of the split SimdMaskArray.
---
 Vc/common/simdmaskarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index c2b6899..26461aa 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -91,8 +91,8 @@ public:
     Vc_INTRINSIC explicit SimdMaskArray(VectorSpecialInitializerOne one) : data(one) {}
     Vc_INTRINSIC explicit SimdMaskArray(VectorSpecialInitializerZero zero) : data(zero) {}
     Vc_INTRINSIC explicit SimdMaskArray(bool b) : data(b) {}
-    Vc_INTRINSIC static SimdMaskArray Zero() { return {private_init, storage_type::Zero()}; }
-    Vc_INTRINSIC static SimdMaskArray One() { return {private_init, storage_type::One()}; }
+    Vc_INTRINSIC static fixed_size_simd_mask<T, N> Zero() { return {private_init, storage_type::Zero()}; }
+    Vc_INTRINSIC static fixed_size_simd_mask<T, N> One() { return {private_init, storage_type::One()}; }
 
     // conversion (casts); implemented in simd_cast_caller.tcc
     template <class U, class V, class = enable_if<N == V::Size>>
-- 
2.43.0


From fdfddbef35c8a13bcbf1f1859610317bcbd565bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 03/59] fix: where(mask) iteration over masks with 32 entries

The sign bit of toInt() (entry 31) was extended to size_t and iterated as
indexes 32 to 63.
---
 Vc/common/iterators.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 071482a..5c4ec64 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -236,7 +236,8 @@ cend(const T &v)
 
 template<typename M> Vc_ALWAYS_INLINE BitmaskIterator begin(const WhereImpl::WhereMask<M> &w)
 {
-    return w.mask.toInt();
+    // zero-extend: entry 31 must not turn into indexes >= 32
+    return static_cast<unsigned int>(w.mask.toInt());
 }
 
 template<typename M> Vc_ALWAYS_INLINE BitmaskIterator end(const WhereImpl::WhereMask<M> &)
-- 
2.43.0


From 2dc9039d7c40e2091c04ff7c6f2a4db71af098f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 04/59] fix: masked increment must not change -0. in masked-off
 entries

---
 Vc/common/writemaskedvector.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..d791106 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -56,15 +56,14 @@ public:
     // prefix
     Vc_INTRINSIC V &operator++()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec += one;
+        // blend the result: adding zero to the masked-off entries would turn -0. into +0.
+        operator=(static_cast<V>(vec + V::One()));
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec -= one;
+        operator=(static_cast<V>(vec - V::One()));
+        return vec;
     }
 
     // postfix
-- 
2.43.0


From 2f983173da4676972fdba5ff79845490afa8766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 05/59] fix: masked integer division must not divide masked-off
 entries

---
 Vc/common/writemaskedvector.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index d791106..9db7ec6 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -86,9 +86,21 @@ public:
         operator=(static_cast<V>(vec op std::forward<U>(x)));                            \
     }
     Vc_ALL_BINARY(Vc_OPERATOR_);
-    Vc_ALL_ARITHMETICS(Vc_OPERATOR_);
+    Vc_OPERATOR_(+) Vc_OPERATOR_(-) Vc_OPERATOR_(*)
     Vc_ALL_SHIFTS(Vc_OPERATOR_);
 #undef Vc_OPERATOR_
+#define Vc_OPERATOR_(op)                                                                 \
+    template <typename U> Vc_ALWAYS_INLINE void operator op##=(U &&x)                    \
+    {                                                                                    \
+        operator=(static_cast<V>(                                                        \
+            vec op divisor(std::forward<U>(x),                                           \
+                           std::integral_constant<                                       \
+                               bool, std::is_integral<typename V::EntryType>::value &&   \
+                                         std::is_same<typename std::decay<U>::type,      \
+                                                      V>::value>())));                   \
+    }
+    Vc_OPERATOR_(/) Vc_OPERATOR_(%)
+#undef Vc_OPERATOR_
 
     Vc_ALWAYS_INLINE void operator=(const V &x)
     {
@@ -119,6 +131,18 @@ public:
     }
 
 private:
+    template <typename U> Vc_INTRINSIC U &&divisor(U &&x, std::false_type) const
+    {
+        return static_cast<U &&>(x);
+    }
+    // Integer division traps on zero. Masked-off entries must not be divided at all.
+    Vc_INTRINSIC V divisor(const V &x, std::true_type) const
+    {
+        V r = V::One();
+        r.assign(x, mask);
+        return r;
+    }
+
 #ifdef Vc_ICC
     // If ICC gets a by-value copy of Mask here, it'll generate a lot of superfluous
     // stack-register copies.
-- 
2.43.0


From bd50e30e88f3c48215b17acdc7709d18f6ce2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 06/59] fix: double_v loads from 16 and 8 bit integers (AVX)
 and from 8 bit integers (SSE)

---
 Vc/avx/detail.h | 8 ++++----
 Vc/sse/detail.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..c26d99d 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -375,22 +375,22 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 
 // float {{{2
diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..8e9fb9e 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -291,14 +291,14 @@ Vc_INTRINSIC __m128d load(const short *mem, Flags, LoadTag<__m128d, double>)
 template <typename Flags>
 Vc_INTRINSIC __m128d load(const uchar *mem, Flags, LoadTag<__m128d, double>)
 {
-    return SSE::convert<uchar, double>(
-        _mm_set1_epi16(*aliasing_cast<short>(mem)));
+    return SSE::convert<int, double>(SSE::cvtepu8_epi32(
+        _mm_cvtsi32_si128(*aliasing_cast<ushort>(mem))));
 }
 template <typename Flags>
 Vc_INTRINSIC __m128d load(const schar *mem, Flags, LoadTag<__m128d, double>)
 {
-    return SSE::convert<char, double>(
-        _mm_set1_epi16(*aliasing_cast<short>(mem)));
+    return SSE::convert<int, double>(SSE::cvtepi8_epi32(
+        _mm_cvtsi32_si128(*aliasing_cast<ushort>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From ad7eb6891cb148e00ca06519ce444658e74dcebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 07/59] fix: round uint to float conversion in AVX float_v
 loads correctly

---
 Vc/avx/detail.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index c26d99d..4a9044b 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -403,12 +403,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From 39e303d38c0df5e5311942776892a0bdd902c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 08/59] fix: 16-bit gathers (AVX2) must not access memory
 beyond the addressed objects

---
 Vc/avx/vector.h | 57 ++-----------------------------------------------
 Vc/sse/vector.h | 47 ++--------------------------------------
 2 files changed, 4 insertions(+), 100 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..2af28ea 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -224,61 +224,8 @@ public:
                     .data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx0)),
-                                      int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    *this = (simd_cast<Signed>(*this) << 8) >> 8;  // sign extend
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            const auto k0 = simd_cast<AVX2::int_m, 0>(k).data();
-            const auto k1 = simd_cast<AVX2::int_m, 1>(k).data();
-            auto v = simd_cast<Vector>(
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k0, aliasing_cast<int>(args.address), idx0)),
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k1, aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    v = (simd_cast<Signed>(v) << 8) >> 8;  // sign extend
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // Gathers of 16-bit entries from 8-bit and 16-bit integers are not emulated via epi32
+        // gathers: those access memory beyond the addressed objects.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..0bf621a 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -176,51 +176,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
                 simd_cast<SSE::int_v>(args.indexes).data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx = simd_cast<int_v>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(
-                AVX::gather<sizeof(MT) * Scale>(aliasing_cast<int>(args.address), idx)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    d.v() = _mm_srai_epi16(_mm_slli_epi16(d.v(), 8), 8);
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            auto v = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                _mm256_setzero_si256(), simd_cast<AVX2::int_m>(k).data(),
-                aliasing_cast<int>(args.address),
-                simd_cast<int_v>(args.indexes).data())));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    v.data() = _mm_srai_epi16(_mm_slli_epi16(v.data(), 8), 8);
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // Gathers of 16-bit entries from 8-bit and 16-bit integers are not emulated via epi32
+        // gathers: those access memory beyond the addressed objects.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
-- 
2.43.0


From 2ae47c49c5433c080a91fda51432786e12de6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 09/59] fix: SimdArray gather/scatter with index vectors larger
 than the value vector

---
 Vc/common/simdarray.h | 50 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..ec1f170 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1478,27 +1478,54 @@ constexpr std::size_t SimdArray<T, N, V, M>::Size;
 template <typename T, std::size_t N, typename V, std::size_t M>
 constexpr std::size_t SimdArray<T, N, V, M>::MemoryAlignment;
 
+// trimIndexVector {{{2
+namespace Common
+{
+/**\internal
+ * Split::lo/hi split an index vector according to the size of the index vector. Therefore,
+ * cut index vectors with more entries than the data vector down to \p N entries first.
+ */
+template <std::size_t N, typename IT>
+Vc_INTRINSIC enable_if<(Traits::is_simd_vector<IT>::value &&
+                        Traits::simd_vector_size<IT>::value > N),
+                       fixed_size_simd<typename IT::EntryType, N>>
+trimIndexVector(const IT &indexes)
+{
+    return simd_cast<fixed_size_simd<typename IT::EntryType, N>>(indexes);
+}
+template <std::size_t N, typename IT>
+Vc_INTRINSIC enable_if<!(Traits::is_simd_vector<IT>::value &&
+                         Traits::simd_vector_size<IT>::value > N),
+                       const IT &>
+trimIndexVector(const IT &indexes)
+{
+    return indexes;
+}
+}  // namespace Common
+
 // gatherImplementation {{{2
 template <typename T, std::size_t N, typename VectorType, std::size_t M>
 template <class MT, class IT, int Scale>
 inline void SimdArray<T, N, VectorType, M>::gatherImplementation(
     const Common::GatherArguments<MT, IT, Scale> &args)
 {
+    auto &&indexes = Common::trimIndexVector<N>(args.indexes);
     data0.gather(Common::make_gather<Scale>(
-        args.address, Split::lo(Common::Operations::gather(), args.indexes)));
+        args.address, Split::lo(Common::Operations::gather(), indexes)));
     data1.gather(Common::make_gather<Scale>(
-        args.address, Split::hi(Common::Operations::gather(), args.indexes)));
+        args.address, Split::hi(Common::Operations::gather(), indexes)));
 }
 template <typename T, std::size_t N, typename VectorType, std::size_t M>
 template <class MT, class IT, int Scale>
 inline void SimdArray<T, N, VectorType, M>::gatherImplementation(
     const Common::GatherArguments<MT, IT, Scale> &args, MaskArgument mask)
 {
+    auto &&indexes = Common::trimIndexVector<N>(args.indexes);
     data0.gather(Common::make_gather<Scale>(
-                     args.address, Split::lo(Common::Operations::gather(), args.indexes)),
+                     args.address, Split::lo(Common::Operations::gather(), indexes)),
                  Split::lo(mask));
     data1.gather(Common::make_gather<Scale>(
-                     args.address, Split::hi(Common::Operations::gather(), args.indexes)),
+                     args.address, Split::hi(Common::Operations::gather(), indexes)),
                  Split::hi(mask));
 }
 
@@ -1508,20 +1535,19 @@ template <typename MT, typename IT>
 inline void SimdArray<T, N, VectorType, M>::scatterImplementation(MT *mem,
                                                                  IT &&indexes) const
 {
-    data0.scatter(mem, Split::lo(Common::Operations::gather(),
-                                indexes));  // don't forward indexes - it could move and
-                                            // thus break the next line
-    data1.scatter(mem, Split::hi(Common::Operations::gather(), std::forward<IT>(indexes)));
+    auto &&trimmed = Common::trimIndexVector<N>(indexes);
+    data0.scatter(mem, Split::lo(Common::Operations::gather(), trimmed));
+    data1.scatter(mem, Split::hi(Common::Operations::gather(), trimmed));
 }
 template <typename T, std::size_t N, typename VectorType, std::size_t M>
 template <typename MT, typename IT>
 inline void SimdArray<T, N, VectorType, M>::scatterImplementation(MT *mem,
                                                                  IT &&indexes, MaskArgument mask) const
 {
-    data0.scatter(mem, Split::lo(Common::Operations::gather(), indexes),
-                 Split::lo(mask));  // don't forward indexes - it could move and
-                                    // thus break the next line
-    data1.scatter(mem, Split::hi(Common::Operations::gather(), std::forward<IT>(indexes)),
+    auto &&trimmed = Common::trimIndexVector<N>(indexes);
+    data0.scatter(mem, Split::lo(Common::Operations::gather(), trimmed),
+                 Split::lo(mask));
+    data1.scatter(mem, Split::hi(Common::Operations::gather(), trimmed),
                  Split::hi(mask));
 }
 
-- 
2.43.0


From e4bd1ea9d5fafadfb2a21f942f2ae727405297d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 10/59] fix: AVX2 uint_v deinterleave from ushort memory must
 zero-extend

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From ce1220cc928d08bb04432d620c512c8604121a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 11/59] fix: interleaved reads of 3, 5, 6, or 7 members must
 not access memory behind the last struct

---
 Vc/avx/detail.h | 128 ++++++++++++++++++++++++------------------------
 Vc/sse/detail.h |  98 ++++++++++++++++++++++--------------
 2 files changed, 126 insertions(+), 100 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 4a9044b..fe0efce 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1474,17 +1474,17 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
     {
         using namespace AVX;
         const __m256i tmp0 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[0]]), *aliasing_cast<double>(&data[i[1]]),
-            *aliasing_cast<double>(&data[i[8]]), *aliasing_cast<double>(&data[i[9]])));
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[0]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[1]]))),
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[8]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[9]])))));
         const __m256i tmp1 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[2]]), *aliasing_cast<double>(&data[i[3]]),
-            *aliasing_cast<double>(&data[i[10]]), *aliasing_cast<double>(&data[i[11]])));
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[2]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[3]]))),
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[10]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[11]])))));
         const __m256i tmp2 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[4]]), *aliasing_cast<double>(&data[i[5]]),
-            *aliasing_cast<double>(&data[i[12]]), *aliasing_cast<double>(&data[i[13]])));
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[4]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[5]]))),
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[12]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[13]])))));
         const __m256i tmp3 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[6]]), *aliasing_cast<double>(&data[i[7]]),
-            *aliasing_cast<double>(&data[i[14]]), *aliasing_cast<double>(&data[i[15]])));
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[6]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[7]]))),
+            _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[14]]))), _mm_cvtsd_f64(_mm_castsi128_pd(loadLeadingEntries<3>(&data[i[15]])))));
         const __m256i tmp4 = AVX::unpacklo_epi16(tmp0, tmp2); // a0 a4 b0 b4 c0 c4 XX XX | a8 a12 b8 ...
         const __m256i tmp5 = AVX::unpackhi_epi16(tmp0, tmp2); // a1 a5 ...
         const __m256i tmp6 = AVX::unpacklo_epi16(tmp1, tmp3); // a2 a6 ...
@@ -1534,22 +1534,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadLeadingEntries<5>(&data[i[0]]),
+                                 loadLeadingEntries<5>(&data[i[8]]));
+        const __m256i b = concat(loadLeadingEntries<5>(&data[i[1]]),
+                                 loadLeadingEntries<5>(&data[i[9]]));
+        const __m256i c = concat(loadLeadingEntries<5>(&data[i[2]]),
+                                 loadLeadingEntries<5>(&data[i[10]]));
+        const __m256i d = concat(loadLeadingEntries<5>(&data[i[3]]),
+                                 loadLeadingEntries<5>(&data[i[11]]));
+        const __m256i e = concat(loadLeadingEntries<5>(&data[i[4]]),
+                                 loadLeadingEntries<5>(&data[i[12]]));
+        const __m256i f = concat(loadLeadingEntries<5>(&data[i[5]]),
+                                 loadLeadingEntries<5>(&data[i[13]]));
+        const __m256i g = concat(loadLeadingEntries<5>(&data[i[6]]),
+                                 loadLeadingEntries<5>(&data[i[14]]));
+        const __m256i h = concat(loadLeadingEntries<5>(&data[i[7]]),
+                                 loadLeadingEntries<5>(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1577,22 +1577,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadLeadingEntries<6>(&data[i[0]]),
+                                 loadLeadingEntries<6>(&data[i[8]]));
+        const __m256i b = concat(loadLeadingEntries<6>(&data[i[1]]),
+                                 loadLeadingEntries<6>(&data[i[9]]));
+        const __m256i c = concat(loadLeadingEntries<6>(&data[i[2]]),
+                                 loadLeadingEntries<6>(&data[i[10]]));
+        const __m256i d = concat(loadLeadingEntries<6>(&data[i[3]]),
+                                 loadLeadingEntries<6>(&data[i[11]]));
+        const __m256i e = concat(loadLeadingEntries<6>(&data[i[4]]),
+                                 loadLeadingEntries<6>(&data[i[12]]));
+        const __m256i f = concat(loadLeadingEntries<6>(&data[i[5]]),
+                                 loadLeadingEntries<6>(&data[i[13]]));
+        const __m256i g = concat(loadLeadingEntries<6>(&data[i[6]]),
+                                 loadLeadingEntries<6>(&data[i[14]]));
+        const __m256i h = concat(loadLeadingEntries<6>(&data[i[7]]),
+                                 loadLeadingEntries<6>(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1621,22 +1621,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadLeadingEntries<7>(&data[i[0]]),
+                                 loadLeadingEntries<7>(&data[i[8]]));
+        const __m256i b = concat(loadLeadingEntries<7>(&data[i[1]]),
+                                 loadLeadingEntries<7>(&data[i[9]]));
+        const __m256i c = concat(loadLeadingEntries<7>(&data[i[2]]),
+                                 loadLeadingEntries<7>(&data[i[10]]));
+        const __m256i d = concat(loadLeadingEntries<7>(&data[i[3]]),
+                                 loadLeadingEntries<7>(&data[i[11]]));
+        const __m256i e = concat(loadLeadingEntries<7>(&data[i[4]]),
+                                 loadLeadingEntries<7>(&data[i[12]]));
+        const __m256i f = concat(loadLeadingEntries<7>(&data[i[5]]),
+                                 loadLeadingEntries<7>(&data[i[13]]));
+        const __m256i g = concat(loadLeadingEntries<7>(&data[i[6]]),
+                                 loadLeadingEntries<7>(&data[i[14]]));
+        const __m256i h = concat(loadLeadingEntries<7>(&data[i[7]]),
+                                 loadLeadingEntries<7>(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1957,14 +1957,14 @@ template<typename V> struct InterleaveImpl<V, 8, 32> {
                                     V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const m128  il0 = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]])); // a0 b0 c0 d0
-        const m128  il1 = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]])); // a1 b1 c1 d1
-        const m128  il2 = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]])); // a2 b2 c2 d2
-        const m128  il3 = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]])); // a3 b3 c3 d3
-        const m128  il4 = _mm_loadu_ps(aliasing_cast<float>(&data[i[4]])); // a4 b4 c4 d4
-        const m128  il5 = _mm_loadu_ps(aliasing_cast<float>(&data[i[5]])); // a5 b5 c5 d5
-        const m128  il6 = _mm_loadu_ps(aliasing_cast<float>(&data[i[6]])); // a6 b6 c6 d6
-        const m128  il7 = _mm_loadu_ps(aliasing_cast<float>(&data[i[7]])); // a7 b7 c7 d7
+        const m128  il0 = loadThreeEntries(&data[i[0]]); // a0 b0 c0 d0
+        const m128  il1 = loadThreeEntries(&data[i[1]]); // a1 b1 c1 d1
+        const m128  il2 = loadThreeEntries(&data[i[2]]); // a2 b2 c2 d2
+        const m128  il3 = loadThreeEntries(&data[i[3]]); // a3 b3 c3 d3
+        const m128  il4 = loadThreeEntries(&data[i[4]]); // a4 b4 c4 d4
+        const m128  il5 = loadThreeEntries(&data[i[5]]); // a5 b5 c5 d5
+        const m128  il6 = loadThreeEntries(&data[i[6]]); // a6 b6 c6 d6
+        const m128  il7 = loadThreeEntries(&data[i[7]]); // a7 b7 c7 d7
 
         const m256 il04 = concat(il0, il4);
         const m256 il15 = concat(il1, il5);
diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index 8e9fb9e..69da879 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -818,6 +818,32 @@ static Vc_INTRINSIC Vc_CONST enable_if<(sizeof(V) == 16), V> rotated(V v, int am
 }
 
 //InterleaveImpl{{{1
+/**\internal
+ * Load the first \p N 16-bit entries of a struct without touching the memory behind them.
+ */
+template <int N, typename T> Vc_INTRINSIC __m128i loadLeadingEntries(const T *x)
+{
+    static_assert(sizeof(T) == 2 && (N == 3 || (N >= 5 && N <= 7)), "");
+    if (N == 3) {
+        return _mm_insert_epi16(_mm_cvtsi32_si128(*aliasing_cast<int>(x)), x[2], 2);
+    }
+    const __m128i lo = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(x));
+    if (N == 5) {
+        return _mm_insert_epi16(lo, x[4], 4);
+    }
+    const __m128i r =
+        _mm_unpacklo_epi64(lo, _mm_cvtsi32_si128(*aliasing_cast<int>(x + 4)));
+    return N == 6 ? r : _mm_insert_epi16(r, x[N == 7 ? 6 : 0], 6);
+}
+/**\internal
+ * Load the first three 32-bit entries of a struct without touching the memory behind them.
+ */
+template <typename T> Vc_INTRINSIC __m128 loadThreeEntries(const T *x)
+{
+    static_assert(sizeof(T) == 4, "");
+    return _mm_movelh_ps(_mm_castpd_ps(_mm_load_sd(aliasing_cast<double>(x))),
+                         _mm_load_ss(aliasing_cast<float>(x + 2)));
+}
 template<typename V, size_t Size, size_t VSize> struct InterleaveImpl;
 template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void interleave(typename V::EntryType *const data, const I &i,/*{{{*/
@@ -1004,14 +1030,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128i a = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadLeadingEntries<3>(&data[i[0]]);
+        const __m128i b = loadLeadingEntries<3>(&data[i[1]]);
+        const __m128i c = loadLeadingEntries<3>(&data[i[2]]);
+        const __m128i d = loadLeadingEntries<3>(&data[i[3]]);
+        const __m128i e = loadLeadingEntries<3>(&data[i[4]]);
+        const __m128i f = loadLeadingEntries<3>(&data[i[5]]);
+        const __m128i g = loadLeadingEntries<3>(&data[i[6]]);
+        const __m128i h = loadLeadingEntries<3>(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1057,14 +1083,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadLeadingEntries<5>(&data[i[0]]);
+        const __m128i b = loadLeadingEntries<5>(&data[i[1]]);
+        const __m128i c = loadLeadingEntries<5>(&data[i[2]]);
+        const __m128i d = loadLeadingEntries<5>(&data[i[3]]);
+        const __m128i e = loadLeadingEntries<5>(&data[i[4]]);
+        const __m128i f = loadLeadingEntries<5>(&data[i[5]]);
+        const __m128i g = loadLeadingEntries<5>(&data[i[6]]);
+        const __m128i h = loadLeadingEntries<5>(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1091,14 +1117,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadLeadingEntries<6>(&data[i[0]]);
+        const __m128i b = loadLeadingEntries<6>(&data[i[1]]);
+        const __m128i c = loadLeadingEntries<6>(&data[i[2]]);
+        const __m128i d = loadLeadingEntries<6>(&data[i[3]]);
+        const __m128i e = loadLeadingEntries<6>(&data[i[4]]);
+        const __m128i f = loadLeadingEntries<6>(&data[i[5]]);
+        const __m128i g = loadLeadingEntries<6>(&data[i[6]]);
+        const __m128i h = loadLeadingEntries<6>(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1126,14 +1152,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadLeadingEntries<7>(&data[i[0]]);
+        const __m128i b = loadLeadingEntries<7>(&data[i[1]]);
+        const __m128i c = loadLeadingEntries<7>(&data[i[2]]);
+        const __m128i d = loadLeadingEntries<7>(&data[i[3]]);
+        const __m128i e = loadLeadingEntries<7>(&data[i[4]]);
+        const __m128i f = loadLeadingEntries<7>(&data[i[5]]);
+        const __m128i g = loadLeadingEntries<7>(&data[i[6]]);
+        const __m128i h = loadLeadingEntries<7>(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1316,10 +1342,10 @@ template<typename V> struct InterleaveImpl<V, 4, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128 a = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]]));
-        const __m128 b = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]]));
-        const __m128 c = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]]));
-        const __m128 d = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]]));
+        const __m128 a = loadThreeEntries(&data[i[0]]);
+        const __m128 b = loadThreeEntries(&data[i[1]]);
+        const __m128 c = loadThreeEntries(&data[i[2]]);
+        const __m128 d = loadThreeEntries(&data[i[3]]);
 
         const __m128 tmp0 = _mm_unpacklo_ps(a, b); // [a0 a1 b0 b1]
         const __m128 tmp1 = _mm_unpacklo_ps(c, d); // [a2 a3 b2 b3]
-- 
2.43.0


From 7e4e9fa693f29da31b9d13bb74f3ee9a0c4cf293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 12/59] fix: masked min/max of SSE and AVX float/double vectors
 used 0 as the neutral element

---
 Vc/avx/vector.tcc | 6 ++++--
 Vc/sse/vector.tcc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..a01aa00 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -600,13 +600,15 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+                                                               : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity ? T(-std::numeric_limits<T>::infinity())
+                                                               : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..722262d 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -425,13 +425,15 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+                                                                         : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity ? T(-std::numeric_limits<T>::infinity())
+                                                                         : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From 06828002a32f12acb9ce509760212a202ba1a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 13/59] fix: AVX float_v::minIndex returned the bit pattern of
 the index converted to float

---
 Vc/avx/vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index a01aa00..59da157 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -557,7 +557,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     idx = _mm256_blendv_ps(idy, idx, less);
 
-    const auto index = _mm_cvtsi128_si32(AVX::avx_cast<__m128i>(idx));
+    const int index = _mm_cvttss_si32(AVX::lo128(idx));
 #ifdef Vc_GNU_ASM
     __asm__ __volatile__(""); // help GCC to order the instructions better
 #endif
-- 
2.43.0


From 3e7494211155d65d6c8cbee059095db339580228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 14/59] fix: SSE double_v::broadcast<1>() returned entry 0 in
 lane 1 (Mem::permute mask)

---
 Vc/sse/shuffle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/sse/shuffle.h b/Vc/sse/shuffle.h
index 6652766..6318a97 100644
--- a/Vc/sse/shuffle.h
+++ b/Vc/sse/shuffle.h
@@ -106,7 +106,7 @@ namespace Mem
         template<VecPos Dst0, VecPos Dst1> static Vc_ALWAYS_INLINE Vc_CONST __m128d permute(__m128d x) {
             static_assert(Dst0 >= X0 && Dst1 >= X0, "Incorrect_Range");
             static_assert(Dst0 <= X1 && Dst1 <= X1, "Incorrect_Range");
-            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 4);
+            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 2);
         }
 
         template<VecPos Dst0, VecPos Dst1, VecPos Dst2, VecPos Dst3> static Vc_ALWAYS_INLINE __m128i Vc_CONST permute(__m128i x) {
-- 
2.43.0


From ccacaedf2baad0ff9730693ecf3f999743de5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 15/59] fix: Vc::transpose kept references to its by-value
 parameters (dangling)

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..8b18f2c 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,7 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From 5f87cdf3aae1989d199fa4c364d7b3439c982ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 16/59] fix: SimdArray::shifted moved the wrong entries across
 the split when the parts differ in size

---
 Vc/common/simdarray.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index ec1f170..85d0a39 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1133,8 +1133,15 @@ public:
             return *this;
         }
         if (amount < 0) {
+            if (amount > -SSize1) {
+                // the last SSize1 entries of data0 are the ones next to data1
+                return {data0.shifted(amount),
+                        data1.shifted(amount, simd_cast<storage_type1>(
+                                                  data0.shifted(SSize0 - SSize1)))};
+            }
             if (amount > -SSize0) {
-                return {data0.shifted(amount), data1.shifted(amount, data0)};
+                return {data0.shifted(amount),
+                        simd_cast<storage_type1>(data0.shifted(amount + SSize0))};
             }
             if (amount == -SSize0) {
                 return {storage_type0(0), simd_cast<storage_type1>(data0)};
@@ -1152,9 +1159,11 @@ public:
                     simd_cast<storage_type0>(data1).shifted(amount - SSize0),
                     storage_type1(0)};
             } else if (amount >= SSize1) {
-                return {data0.shifted(amount, data1), storage_type1(0)};
+                return {data0.shifted(amount, simd_cast<storage_type0>(data1)),
+                        storage_type1(0)};
             } else {
-                return {data0.shifted(amount, data1), data1.shifted(amount)};
+                return {data0.shifted(amount, simd_cast<storage_type0>(data1)),
+                        data1.shifted(amount)};
             }
         }
     }
-- 
2.43.0


From a78afb47048e93b301452eee627506331090d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 17/59] fix: AVX double_v::broadcast<Index>() did not compile

---
 Vc/avx/vector.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 59da157..0dca750 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -932,8 +932,9 @@ template <> template <int Index> Vc_INTRINSIC AVX2::float_v AVX2::float_v::broad
 template <> template <int Index> Vc_INTRINSIC AVX2::double_v AVX2::double_v::broadcast() const
 {
     constexpr VecPos Inner = static_cast<VecPos>(Index & 0x1);
+    constexpr VecPos InnerHi = static_cast<VecPos>(Inner + X2);
     constexpr VecPos Outer = static_cast<VecPos>((Index & 0x2) / 2);
-    return Mem::permute<Inner, Inner>(Mem::permute128<Outer, Outer>(d.v()));
+    return Mem::permute<Inner, Inner, InnerHi, InnerHi>(Mem::permute128<Outer, Outer>(d.v()));
 }
 // }}}1
 }  // namespace Vc
-- 
2.43.0


From 57965f2c428377737a70a6e4d89f29b6d8d0d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 18/59] fix: SSE int/uint to short conversion saturated instead
 of keeping the low 16 bits

---
 Vc/sse/casts.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..ad934d5 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -127,8 +127,11 @@ Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<uint  , double>) { return _mm
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<short , double>) { return convert(convert(v, ConvertTag<short, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<ushort, double>) { return convert(convert(v, ConvertTag<ushort, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128i convert(__m128  v, ConvertTag<float , short >) { return _mm_packs_epi32(_mm_cvttps_epi32(v), _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) {
+    // keep the low 16 bits instead of saturating
+    return _mm_packs_epi32(_mm_srai_epi32(_mm_slli_epi32(v, 16), 16), _mm_setzero_si128());
+}
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return convert(v, ConvertTag<int, short>()); }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<short , short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<ushort, short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, short >) { return convert(convert(v, ConvertTag<double, int>()), ConvertTag<int, short>()); }
-- 
2.43.0


From 42bc44b10d38fd769285200d90f6e3bf8023a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 19/59] fix: SSE2 double to uint conversion blended with a
 64-bit mask over 32-bit lanes

---
 Vc/sse/casts.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index ad934d5..7a30fc2 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -95,10 +95,13 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(_mm_floor_pd(v), _mm_set1_pd(0x80000000u))),
                          _mm_cvtsi64_si128(0x8000000080000000ull));
 #else
+    // the 64-bit compare result must be reduced to the 32-bit layout of the conversion
+    const __m128i large = _mm_shuffle_epi32(
+        _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))), _MM_SHUFFLE(2, 0, 2, 0));
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       large);
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From 5410bbc2343e7d48cf701793244b226412bd06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 20/59] fix: Scalar round was wrong for |x| >= 2^23 (2^52), for
 0.49999997 and for negative zero results

---
 Vc/scalar/math.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..a9afb40 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,14 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
-- 
2.43.0


From 370d71e1561bbd2a91c1c7f0590a72d8737fd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 21/59] fix: SSE2 trunc/floor/ceil lost the sign of zero
 (float) and were inexact above 2^52 (double)

---
 Vc/sse/math.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..b158c0f 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -124,7 +124,8 @@ inline SSE::Vector<float> trunc(SSE::Vector<float> x)
         _mm_set1_epi32(0x4b000000)));  // the exponent is so large that no mantissa bits
                                        // signify fractional values (0x3f8 + 23*8 = 0x4b0)
     return _mm_or_ps(_mm_andnot_ps(no_fractional_values, x.data()),
-                     _mm_and_ps(no_fractional_values, truncated));
+                     _mm_or_ps(_mm_and_ps(no_fractional_values, truncated),
+                               _mm_and_ps(x.data(), SSE::_mm_setsignmask_ps())));
 }
 
 inline SSE::Vector<double> trunc(SSE::Vector<double> x)
@@ -138,6 +139,11 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     // abs(x)` holds, so subtract 1 to truncated if `abs(x) < truncated`
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
+    // values >= 2^52 (and inf/NaN) have no fractional bits and must not take part in the
+    // (inexact) addition above
+    const __m128d has_fractional_bits = _mm_cmplt_pd(abs_x, min_no_fractional_bits);
+    truncated = _mm_or_pd(_mm_and_pd(has_fractional_bits, truncated),
+                          _mm_andnot_pd(has_fractional_bits, abs_x));
     // finally, fix the sign bit:
     return _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
-- 
2.43.0


From 06dd84b836b63cacc9b1d296c72f5c9105ee7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 22/59] fix: SSE2 round returned INT_MIN for |x| >= 2^31 and
 lost the sign of zero

---
 Vc/sse/vectorhelper.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..b7d6b3b 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -211,7 +211,13 @@ namespace SSE
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
                 //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // valid only for |a| < 2^52, larger values (and inf/NaN) are integral already
+                const __m128d magic = _mm_set1_pd(4503599627370496.);
+                const __m128d abs_a = abs(a);
+                const __m128d rounded = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_a, magic), magic),
+                                                  _mm_and_pd(a, _mm_setsignmask_pd()));
+                const __m128d valid = _mm_cmplt_pd(abs_a, magic);
+                return _mm_or_pd(_mm_and_pd(valid, rounded), _mm_andnot_pd(valid, a));
 #endif
             }
         };
@@ -293,7 +299,11 @@ namespace SSE
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
                 //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // valid only for |a| < 2^23, larger values (and inf/NaN) are integral already
+                const __m128 rounded = _mm_or_ps(_mm_cvtepi32_ps(_mm_cvtps_epi32(a)),
+                                                 _mm_and_ps(a, _mm_setsignmask_ps()));
+                const __m128 valid = _mm_cmplt_ps(abs(a), _mm_set1_ps(8388608.f));
+                return _mm_or_ps(_mm_and_ps(valid, rounded), _mm_andnot_ps(valid, a));
 #endif
             }
         };
-- 
2.43.0


From 336c5e771edc8b687a1c918e4e5f132cb51c1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 23/59] fix: ldexp changed infinities and NaN

---
 Vc/avx/math.h | 4 ++--
 Vc/sse/math.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..b92626d 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -248,7 +248,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero() || !isfinite(v)));
     const __m256i exponentBits =
         AVX::concat(_mm_slli_epi64(_mm_unpacklo_epi32(e.data(), e.data()), 52),
                     _mm_slli_epi64(_mm_unpackhi_epi32(e.data(), e.data()), 52));
@@ -257,7 +257,7 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
-    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
+    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero() || !isfinite(v)));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
     return {AVX::avx_cast<__m256>(
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index b158c0f..e530420 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -93,7 +93,7 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
-    e.setZero((v == SSE::double_v::Zero()).dataI());
+    e.setZero((v == SSE::double_v::Zero() || !isfinite(v)).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
     return _mm_castsi128_pd(_mm_add_epi64(_mm_castpd_si128(v.data()), exponentBits));
 }
@@ -101,7 +101,7 @@ inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero() || !isfinite(v)));
     return reinterpret_components_cast<SSE::float_v>(
         reinterpret_components_cast<SSE::int_v>(v) + (e << 23));
 }
-- 
2.43.0


From 421fb908bffbd4e5634b276d8dba247b308f099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 24/59] fix: Memory comparisons ignore the padding

The relational operators of Memory also looked at the entries that only exist
to pad the last vector of the array (or of every row). Thus {1, 2, 3} <
{4, 5, 6} was false because of the zeros behind the values.

(cherry picked from commit f7c8177aed491b957c3edad813d7e93f9254fd48)
---
 Vc/common/memorybase.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 9e96e88..1fcd345 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -371,6 +371,23 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         template <class Flags>
         using const_vector_reference = const MayAlias<MemoryVector<const V, Flags>> &;
 
+        // every row of the array has its own padding at the end
+        size_t paddedRows(std::integral_constant<int, 1>) const { return 1; }
+        size_t paddedRows(std::integral_constant<int, 2>) const { return p()->rowsCount(); }
+
+        // Returns whether m, the result of a comparison with vector(i), is true for all entries
+        // that belong to the array. The padding does not take part in comparisons.
+        bool allEntries(const typename V::Mask &m, size_t i) const
+        {
+            const size_t rows = paddedRows(std::integral_constant<int, Dimension>());
+            const size_t first = (i % (vectorsCount() / rows)) * V::Size;
+            const size_t valid = entriesCount() / rows - first;
+            if (valid >= V::Size) {
+                return m.isFull();
+            }
+            return (m || V(IndexesFromZero) >= V(static_cast<EntryType>(valid))).isFull();
+        }
+
     public:
         /**
          * The type of the scalar entries in the array.
@@ -704,7 +721,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator==(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) == V(rhs.vector(i))).isFull()) {
+                if (!allEntries(V(vector(i)) == V(rhs.vector(i)), i)) {
                     return false;
                 }
             }
@@ -718,7 +735,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator!=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) == V(rhs.vector(i))).isEmpty()) {
+                if (!allEntries(!(V(vector(i)) == V(rhs.vector(i))), i)) {
                     return false;
                 }
             }
@@ -732,7 +749,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator<(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) < V(rhs.vector(i))).isFull()) {
+                if (!allEntries(V(vector(i)) < V(rhs.vector(i)), i)) {
                     return false;
                 }
             }
@@ -746,7 +763,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator<=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) <= V(rhs.vector(i))).isFull()) {
+                if (!allEntries(V(vector(i)) <= V(rhs.vector(i)), i)) {
                     return false;
                 }
             }
@@ -760,7 +777,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator>(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) > V(rhs.vector(i))).isFull()) {
+                if (!allEntries(V(vector(i)) > V(rhs.vector(i)), i)) {
                     return false;
                 }
             }
@@ -774,7 +791,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator>=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) >= V(rhs.vector(i))).isFull()) {
+                if (!allEntries(V(vector(i)) >= V(rhs.vector(i)), i)) {
                     return false;
                 }
             }
-- 
2.43.0


From 339d8a5a8db160de9e25625b4a40e4952351fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 25/59] fix: MemoryBase::operator= returns a reference to the
 object

The function had no return statement, which is undefined behavior for every call.

(cherry picked from commit 6c1114059d24657c239bd8bd192c0843df361c13)
---
 Vc/common/memorybase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 1fcd345..da432df 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -620,6 +620,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
             for (size_t i = 0; i < vectorsCount(); ++i) {
                 vector(i) = std::forward<U>(x);
             }
+            return static_cast<Parent &>(*this);
         }
 
         /**
-- 
2.43.0


From a663f1b260203b68d1dd3c4dfaa39fa542505c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 26/59] fix: do not write in front of an empty Memory

Memory<V>(0) has no last vector that could be initialized.

(cherry picked from commit b147527a98503305792e3e15fedf025a1a959625)
---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..5ebba5f 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -397,7 +397,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From a3faac64b7d3ee6426972c6569fece725065d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 27/59] fix: pad Memory correctly if V::Size is not a power of
 two

SimdArray types can have any size. The padding was calculated with a bit mask,
so that e.g. Memory<SimdArray<double, 6>, 8> was too small for two vectors.

(cherry picked from commit 4ae583ce5a1b4e1f945acfabe8ab6c14082fd627)
---
 Vc/common/memory.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 5ebba5f..51ca0bc 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -46,8 +46,7 @@ template<typename V, size_t Size> struct _MemorySizeCalculation
 {
     enum AlignmentCalculations {
         Alignment = V::Size,
-        AlignmentMask = Alignment - 1,
-        MaskedSize = Size & AlignmentMask,
+        MaskedSize = Size % Alignment,
         Padding = Alignment - MaskedSize,
         PaddedSize = MaskedSize == 0 ? Size : Size + Padding
     };
@@ -207,7 +206,7 @@ class Memory<V, Size, 0u, InitPadding> :
             friend class MemoryDimensionBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             enum : size_t {
                 Alignment = V::MemoryAlignment,     // in Bytes
-                MaskedSize = Size & (V::Size - 1),  // the fraction of Size that exceeds
+                MaskedSize = Size % V::Size,        // the fraction of Size that exceeds
                                                     // an integral multiple of V::Size
                 Padding = V::Size - MaskedSize,
                 PaddedSize = MaskedSize == 0 ? Size : Size + Padding
@@ -370,15 +369,14 @@ class Memory<V, Size, 0u, InitPadding> :
             friend class MemoryBase<V, Memory<V>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V>, 1, void>;
         enum InternalConstants {
-            Alignment = V::Size,
-            AlignmentMask = Alignment - 1
+            Alignment = V::Size
         };
         size_t m_entriesCount;
         size_t m_vectorsCount;
         EntryType *m_mem;
         size_t calcPaddedEntriesCount(size_t x)
         {
-            size_t masked = x & AlignmentMask;
+            size_t masked = x % Alignment;
             return (masked == 0 ? x : x + (Alignment - masked));
         }
     public:
-- 
2.43.0


From 3802b7c45935a318c7dde4b8e0135db6cb8b4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 28/59] fix: Vc::malloc returned too small blocks for huge
 requests

If the number of Bytes, or the number of Bytes after padding to the alignment,
cannot be represented in size_t the calculation wrapped around and a small block
was returned instead of an error.
---
 Vc/common/malloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index eec335e..da8b80b 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -52,6 +52,9 @@ template <size_t X> static constexpr size_t nextMultipleOf(size_t value)
 
 template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n)
 {
+    if (n > ~std::size_t(0) - (alignment - 1)) {
+        return nullptr;  // n cannot be padded to a multiple of alignment
+    }
 #ifdef __MIC__
     return _mm_malloc(nextMultipleOf<alignment>(n), alignment);
 #elif defined(_WIN32)
@@ -135,6 +138,9 @@ Vc_ALWAYS_INLINE void free(void *p)
 template<typename T, Vc::MallocAlignment A>
 Vc_ALWAYS_INLINE T *malloc(size_t n)
 {
+    if (n > ~size_t(0) / sizeof(T)) {
+        return nullptr;  // n * sizeof(T) overflows
+    }
     return static_cast<T *>(Common::malloc<A>(n * sizeof(T)));
 }
 
-- 
2.43.0


From cab4a853cbda5211f15df9b7ba73a7965cc30aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 29/59] fix: Allocator::max_size considers the extra Bytes used
 for alignment

allocate(max_size()) wrapped around and returned a too small block.
---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From d5c6aa1b8d7f3bf266de8e422398c9a1efb9dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 30/59] fix: operator new of SimdArray and SimdMaskArray
 returned misaligned memory

The classes have a stricter alignment than their first member, but operator new
only requested the alignment of the member.
---
 Vc/common/simdarray.h     | 4 ++--
 Vc/common/simdmaskarray.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 85d0a39..e642429 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -500,7 +500,7 @@ public:
     /// \internal
     Vc_INTRINSIC SimdArray(private_init_t, VectorType &&x) : data(std::move(x)) {}
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private:
     // The alignas attribute attached to the class declaration above is ignored by ICC
@@ -1470,7 +1470,7 @@ public:
     {
     }
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type0));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private: //{{{2
     // The alignas attribute attached to the class declaration above is ignored by ICC
diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index 26461aa..2540e1d 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -76,7 +76,7 @@ public:
     using reference = EntryReference;
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     SimdMaskArray() = default;
@@ -368,7 +368,7 @@ public:
     /// An alias for the corresponding SimdArray type.
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     ///\copydoc Mask::Mask()
-- 
2.43.0


From b394c88eaab447b09935eef591a8451e1dc0b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 31/59] fix: operator new of the aligned classes throws on
 failure

A replaced operator new without noexcept must not return a nullptr. The new
expression went on to construct the object at address zero.
---
 Vc/common/alignedbase.h |  2 +-
 Vc/common/macros.h      |  4 ++--
 Vc/common/malloc.h      | 18 ++++++++++++++++--
 Vc/common/simdize.h     |  4 ++--
 Vc/common/types.h       |  2 +-
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/Vc/common/alignedbase.h b/Vc/common/alignedbase.h
index f1c405b..ce5411f 100644
--- a/Vc/common/alignedbase.h
+++ b/Vc/common/alignedbase.h
@@ -49,7 +49,7 @@ template <typename T, typename... Ts> constexpr T max(T a, T b, Ts... rest)
 }  // namespace Detail
 namespace Common
 {
-template <std::size_t> Vc_INTRINSIC void *aligned_malloc(std::size_t);
+template <std::size_t> Vc_INTRINSIC void *aligned_new(std::size_t);
 Vc_ALWAYS_INLINE void free(void *);
 }  // namespace Common
 
diff --git a/Vc/common/macros.h b/Vc/common/macros.h
index ff1479f..b5ee00f 100644
--- a/Vc/common/macros.h
+++ b/Vc/common/macros.h
@@ -186,14 +186,14 @@ static Vc_INTRINSIC void unreachable() { __assume(0); }
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new(size_t size)                                     \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new(size_t, void *p) { return p; }                   \
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new[](size_t size)                                   \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new[](size_t, void *p) { return p; }                 \
diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index da8b80b..3bf341f 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -34,10 +34,10 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #if defined _WIN32 || defined _WIN64
 #include <malloc.h>
-#else
-#include <cstdlib>
 #endif
 
+#include <cstdlib>
+#include <new>
 #include "macros.h"
 
 namespace Vc_VERSIONED_NAMESPACE
@@ -73,6 +73,20 @@ template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n
 #endif
 }
 
+// like aligned_malloc, but usable for operator new, which must not return a nullptr
+template <std::size_t alignment> Vc_INTRINSIC void *aligned_new(std::size_t n)
+{
+    void *const ptr = aligned_malloc<alignment>(n);
+    if (ptr == nullptr) {
+#if defined __cpp_exceptions || defined __EXCEPTIONS || defined _CPPUNWIND
+        throw std::bad_alloc();
+#else
+        std::abort();
+#endif
+    }
+    return ptr;
+}
+
 template <Vc::MallocAlignment A> Vc_ALWAYS_INLINE void *malloc(size_t n)
 {
     switch (A) {
diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..ae23000 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -902,12 +902,12 @@ public:
     /// ignores by default.
     void *operator new(size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new(size_t, void *p_) { return p_; }
     void *operator new[](size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new[](size_t , void *p_) { return p_; }
     void operator delete(void *ptr_, size_t) { Vc::Common::free(ptr_); }
diff --git a/Vc/common/types.h b/Vc/common/types.h
index 50ce57d..a12edeb 100644
--- a/Vc/common/types.h
+++ b/Vc/common/types.h
@@ -294,7 +294,7 @@ public:
 
 // declaration for functions in common/malloc.h
 template <std::size_t alignment>
-Vc_INTRINSIC_L void *aligned_malloc(std::size_t n) Vc_INTRINSIC_R;
+Vc_INTRINSIC_L void *aligned_new(std::size_t n) Vc_INTRINSIC_R;
 Vc_ALWAYS_INLINE_L void free(void *p) Vc_ALWAYS_INLINE_R;
 
 /**\internal
-- 
2.43.0


From ff605299bf8bd082d7a709996e77b56aea473263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 32/59] fix: load/store_interleaved of tuples mapped the
 members in reverse

libstdc++ stores the members of std::tuple in reverse order, therefore the
members cannot be addressed by their position in memory.
---
 Vc/common/simdize.h | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index ae23000..c177a1b 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -28,6 +28,8 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef VC_COMMON_SIMDIZE_H_
 #define VC_COMMON_SIMDIZE_H_
 
+#include <initializer_list>
+#include <memory>
 #include <tuple>
 #include <array>
 
@@ -1162,6 +1164,28 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// members_in_order {{{
+/**\internal
+ * Returns whether the members of the object at \p mem (as numbered by get_dispatcher) are
+ * laid out in memory in ascending order, without padding in between. This is not the case,
+ * e.g., for libstdc++'s std::tuple, which stores its members in reverse order.
+ */
+template <class S, size_t... I>
+inline bool members_in_order(Vc::index_sequence<I...>, const S *mem)
+{
+    const auto address = [](const volatile void *p) {
+        return reinterpret_cast<const volatile char *>(p);
+    };
+    const std::initializer_list<bool> in_order = {
+        address(std::addressof(get_dispatcher<I>(*mem))) ==
+        address(mem) + I * homogeneous_sizeof<S>::value...};
+    bool r = true;
+    for (const bool b : in_order) {
+        r = r && b;
+    }
+    return r;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1256,11 +1280,12 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_order(Vc::make_index_sequence<TupleSize>(), mem)) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { assign(a, i, mem[i]); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                              mem);
     }
@@ -1277,11 +1302,12 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_order(Vc::make_index_sequence<TupleSize>(), mem)) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { mem[i] = extract(a, i); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                               mem);
     }
-- 
2.43.0


From 925c128b0ab0bf9164432cce619b4350e538fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 33/59] fix: simdized iterator references do not refer to a
 dangling iterator

The reference returned from operator[] stored a reference to a temporary
iterator and thus wrote to arbitrary addresses on assignment.
---
 Vc/common/simdize.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index c177a1b..a7be15c 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1505,13 +1505,14 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    /// A copy of the scalar iterator, since the simdized iterator may not live as long as
+    /// the reference (e.g. in operator[]).
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of
+    /// the iterator for write back in the assignment operator.
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From cb9724972ffb473a510661d222e74dd7ccf16ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 34/59] fix: broadcasting into simdized aggregates set only the
 first member

If the first member is a SimdArray, Base{{a, b}} initialized the two parts of
the first member with a and b.
---
 Vc/common/simdize.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index a7be15c..5f39375 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -695,11 +695,12 @@ template <typename T> T create();
 template <class Type, class... Init, class = decltype(Type(create<Init>()...))>
 constexpr std::integral_constant<int, 0> test(int);
 // 1: 1-brace init
-template <class Type, class... Init, class = decltype(Type{create<Init>()...})>
-constexpr std::integral_constant<int, 1> test(float);
-// 2: 2-brace init
-template <class Type, class... Init, class T, class = decltype(Type{{create<Init>()...}})>
-constexpr std::integral_constant<int, 2> test(T);
+template <class Type, class... Init, class T, class = decltype(Type{create<Init>()...})>
+constexpr std::integral_constant<int, 1> test(T);
+// 2: 2-brace init (only if 1-brace init is ill-formed, because otherwise the inner braces
+//    could initialize the first member from all values)
+template <class Type, class... Init, class = decltype(Type{{create<Init>()...}})>
+constexpr std::integral_constant<int, 2> test(float);
 // 3: no init at all
 template <class Type, class... Init> constexpr std::integral_constant<int, 3> test(...);
 }  // namespace preferred_construction_impl
-- 
2.43.0


From a2deed16a0f9ab1bd9bdbd54d62a2f38f50f4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 35/59] fix: simd_for_each dereferenced a null pointer if the
 range is empty

An empty std::vector has begin() == end() == nullptr and last - V::Size + 1
wrapped around to the end of the address space.
---
 Vc/common/algorithms.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index 3ad27c6..f48c86c 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -72,8 +72,9 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::Size + 1;
-    for (; first < lastV; first += V::Size) {
+    // Note that last - V::Size might not be a valid iterator.
+    const auto size = static_cast<decltype(last - first)>(V::Size);
+    for (; last - first >= size; first += size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -95,8 +96,9 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::size() + 1;
-    for (; first < lastV; first += V::size()) {
+    // Note that last - V::size() might not be a valid iterator.
+    const auto size = static_cast<decltype(last - first)>(V::size());
+    for (; last - first >= size; first += size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
-- 
2.43.0


From add210c975abfd9f5ef9d8d7560d5f364fd396ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 36/59] fix: simd_for_each accessed memory outside of
 non-contiguous ranges

Random access iterators (e.g. of std::deque) may refer to storage that is not
contiguous.
---
 Vc/common/algorithms.h | 106 +++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 40 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index f48c86c..70a9bc7 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -28,10 +28,24 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef VC_COMMON_ALGORITHMS_H_
 #define VC_COMMON_ALGORITHMS_H_
 
+#include <memory>
+
 #include "simdize.h"
 
 namespace Vc_VERSIONED_NAMESPACE
 {
+namespace Detail
+{
+/**\internal
+ * Returns whether the \p n objects starting at \p first are stored contiguously. Random
+ * access iterators don't guarantee this (e.g. std::deque).
+ */
+template <class It> Vc_INTRINSIC bool is_contiguous(It first, std::size_t n)
+{
+    return std::addressof(*(first + (n - 1))) == std::addressof(*first) + (n - 1);
+}
+}  // namespace Detail
+
 #ifdef DOXYGEN
 /**
  * \ingroup Utilities
@@ -74,15 +88,18 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     // Note that last - V::Size might not be a valid iterator.
     const auto size = static_cast<decltype(last - first)>(V::Size);
-    for (; last - first >= size; first += size) {
-        V tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-    }
-    for (; first != last; ++first) {
-        V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
+    while (first != last) {
+        if (last - first >= size && Detail::is_contiguous(first, size)) {
+            V tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            first += size;
+        } else {
+            V1 tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            ++first;
+        }
     }
     return f;
 }
@@ -98,17 +115,20 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     // Note that last - V::size() might not be a valid iterator.
     const auto size = static_cast<decltype(last - first)>(V::size());
-    for (; last - first >= size; first += size) {
-        V tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
-    }
-    for (; first != last; ++first) {
-        V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+    while (first != last) {
+        if (last - first >= size && Detail::is_contiguous(first, size)) {
+            V tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            store_interleaved(tmp, std::addressof(*first));
+            first += size;
+        } else {
+            V1 tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            store_interleaved(tmp, std::addressof(*first));
+            ++first;
+        }
     }
     return f;
 }
@@ -125,15 +145,18 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typename std::make_signed<size_t>::type len = count;
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
-        V tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-    }
-    for (; len != 0; --len, ++first) {
-        V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
+    while (len != 0) {
+        if (len >= int(V::size()) && Detail::is_contiguous(first, V::size())) {
+            V tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            len -= V::Size, first += V::Size;
+        } else {
+            V1 tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            --len, ++first;
+        }
     }
     return f;
 }
@@ -148,17 +171,20 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typename std::make_signed<size_t>::type len = count;
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
-        V tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
-    }
-    for (; len != 0; --len, ++first) {
-        V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
-        f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+    while (len != 0) {
+        if (len >= int(V::size()) && Detail::is_contiguous(first, V::size())) {
+            V tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            store_interleaved(tmp, std::addressof(*first));
+            len -= V::Size, first += V::Size;
+        } else {
+            V1 tmp;
+            load_interleaved(tmp, std::addressof(*first));
+            f(tmp);
+            store_interleaved(tmp, std::addressof(*first));
+            --len, ++first;
+        }
     }
     return f;
 }
-- 
2.43.0


From aac7f5573199006a96a9c1d4a900f6bcf2eae34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 37/59] fix: decode the extended processor family

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From fefeb8edd4e038e000842127f9ee06d84f25fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 38/59] fix: AMD L3 cache associativity was read from the L2
 register

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From da511f13e9fea1f27f66911b39bbe9462e37ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 39/59] fix: CPUID descriptors of instruction caches changed
 the L1 data cache values

Descriptor 0x30 describes an instruction cache and L1Associativity is the
associativity of the data cache.
---
 src/cpuid.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index f477fed..00dbcac 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -317,17 +317,14 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
     case 0x06:
         s_L1Instruction = 8 * 1024;
         s_L1InstructionLineSize = 32;
-        s_L1Associativity = 4;
         break;
     case 0x08:
         s_L1Instruction = 16 * 1024;
         s_L1InstructionLineSize = 32;
-        s_L1Associativity = 4;
         break;
     case 0x09:
         s_L1Instruction = 32 * 1024;
         s_L1InstructionLineSize = 64;
-        s_L1Associativity = 4;
         break;
     case 0x0A:
         s_L1Data = 8 * 1024;
@@ -380,9 +377,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
-        s_L1Associativity = 8;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         break;
     case 0x40:
         s_noL2orL3 = true;
-- 
2.43.0


From f8ef109be35f5d8ef3a9a75f30df9aeb564ba50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 40/59] fix: decode the L2 cache descriptors 0x1D and 0x24

---
 src/cpuid.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 00dbcac..44d8a16 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -346,6 +346,11 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1DataLineSize = 64;
         s_L1Associativity = 6;
         break;
+    case 0x1D:
+        s_L2Data = 128 * 1024;
+        s_L2DataLineSize = 64;
+        s_L2Associativity = 2;
+        break;
     case 0x21:
         s_L2Data = 256 * 1024;
         s_L2DataLineSize = 64;
@@ -361,6 +366,11 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L3DataLineSize = 64;
         s_L3Associativity = 8;
         break;
+    case 0x24:
+        s_L2Data = 1024 * 1024;
+        s_L2DataLineSize = 64;
+        s_L2Associativity = 16;
+        break;
     case 0x25:
         s_L3Data = 2 * 1024 * 1024;
         s_L3DataLineSize = 64;
-- 
2.43.0


From 1e26827f818c1fcb3b7ae59928ac5077167c1dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 41/59] fix: do not interpret CPUID leafs that the processor
 does not have

Intel processors return the data of the highest basic leaf for larger leafs,
which was misinterpreted as feature bits and cache information.
---
 src/cpuid.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 44d8a16..1a9a219 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -139,6 +139,7 @@ void CpuId::init()
 
     Vc_CPUID(0);
     s_ecx0 = ecx;
+    const uint maxLeaf = eax;  // larger leafs return the data of unrelated leafs
 
     Vc_CPUID(1);
     s_processorFeaturesC = ecx;
@@ -174,13 +175,18 @@ void CpuId::init()
     ebx >>= 8;
     s_logicalProcessors = ebx & 0xff;
 
-    Vc_CPUID_C(7, 0);
-    s_processorFeatures7B = ebx;
-    s_processorFeatures7C = ecx;
+    if (maxLeaf >= 7) {
+        Vc_CPUID_C(7, 0);
+        s_processorFeatures7B = ebx;
+        s_processorFeatures7C = ecx;
+    }
 
-    Vc_CPUID(0x80000001);
-    s_processorFeatures8C = ecx;
-    s_processorFeatures8D = edx;
+    Vc_CPUID(0x80000000);
+    if (eax >= 0x80000001u) {
+        Vc_CPUID(0x80000001);
+        s_processorFeatures8C = ecx;
+        s_processorFeatures8D = edx;
+    }
 
     if (isAmd()) {
         s_prefetch = cacheLineSize();
@@ -203,6 +209,9 @@ void CpuId::init()
     }
 
     // Intel only
+    if (maxLeaf < 2) {
+        return;
+    }
     int repeat = 0;
     bool checkLeaf4 = false;
     do {
@@ -240,7 +249,7 @@ void CpuId::init()
             }
         }
     } while (--repeat > 0);
-    if (checkLeaf4) {
+    if (checkLeaf4 && maxLeaf >= 4) {
         s_prefetch = cacheLineSize();
         if (s_prefetch == 0) {
             s_prefetch = 64;
-- 
2.43.0


From 8895adf46d50265fbbe60f5fae2adea9f346dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 42/59] fix: diagnostic of the library ABI check was lost if
 stdout is no terminal

abort() does not flush the stdio buffers. Print to stderr, which is not
buffered.
---
 src/const.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/const.cpp b/src/const.cpp
index 94dd65a..cc9203a 100644
--- a/src/const.cpp
+++ b/src/const.cpp
@@ -255,7 +255,7 @@ namespace Common
                                   const char *compileTimeVersion)
     {
         if (LIBRARY_ABI_VERSION != compileTimeAbi || LIBRARY_VERSION_NUMBER < versionNumber) {
-            printf("The versions of libVc.a (%s) and Vc/version.h (%s) are incompatible. Aborting.\n", LIBRARY_VERSION, compileTimeVersion);
+            fprintf(stderr, "The versions of libVc.a (%s) and Vc/version.h (%s) are incompatible. Aborting.\n", LIBRARY_VERSION, compileTimeVersion);
             abort();
         }
     }
-- 
2.43.0


From 47d8b6b1fc57ebde3db24ab7a52ab9a4e6185042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 43/59] fix: makeContainer of an empty list accessed memory
 outside of the list

---
 Vc/common/makeContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..d5286a4 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -51,6 +51,9 @@ namespace Vc_VERSIONED_NAMESPACE
             static inline C help(std::initializer_list<T> list) {
                 const std::size_t size = (list.size() + (V::Size - 1)) / V::Size;
                 C v(size);
+                if (size == 0) {
+                    return v;
+                }
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-- 
2.43.0


From 04e93e075556112225f3b95bb1e167d7a81b537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 44/59] fix: array::swap did not compile

---
 Vc/array | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/array b/Vc/array
index 0ba1e2c..3821f1a 100644
--- a/Vc/array
+++ b/Vc/array
@@ -102,7 +102,7 @@ template <class T, size_t Size> struct array {
 
     // No explicit construct/copy/destroy for aggregate type
     void fill(const value_type& u_) { std::fill_n(elems_, Size, u_); }
-    void swap(array& a_) noexcept(std::swap(std::declval<T &>(), std::declval<T &>()))
+    void swap(array& a_) noexcept(noexcept(std::swap(std::declval<T &>(), std::declval<T &>())))
     {
         std::swap_ranges(elems_, elems_ + Size, a_.elems_);
     }
-- 
2.43.0


From f1fd715cfa4952bb84ec02ab2778f03fc0dfd7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 45/59] fix: span could not be compared or constructed from
 containers and iterators

std:: qualification was missing, and std::data/std::size are not available
before C++17.
---
 Vc/common/span.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index 1687834..2ea98fc 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -13,6 +13,7 @@
 #ifndef VC_COMMON_SPAN_H_
 #define VC_COMMON_SPAN_H_
 
+#include <algorithm>    // for equal, lexicographical_compare
 #include <array>        // for array
 #include <cstddef>      // for ptrdiff_t
 #include <cstddef>      // for std::byte
@@ -107,11 +108,11 @@ struct _is_span_compatible_container<
         // is_array_v<Container> is false,
         typename std::enable_if<!std::is_array<T>::value, std::nullptr_t>::type,
         // data(cont) and size(cont) are well formed
-        decltype(data(std::declval<T>())), decltype(size(std::declval<T>())),
+        decltype(_std_data(std::declval<T&>())), decltype(_std_size(std::declval<T&>())),
         // remove_pointer_t<decltype(data(cont))>(*)[] is convertible to ElementType(*)[]
         typename std::enable_if<
             std::is_convertible<typename std::remove_pointer<decltype(
-                                    data(std::declval<T&>()))>::type (*)[],
+                                    _std_data(std::declval<T&>()))>::type (*)[],
                                 ElementType (*)[]>::value,
             std::nullptr_t>::type>> : public std::true_type {
 };
@@ -161,7 +162,7 @@ public:
     {
         (void)_l;
         Vc_ASSERT(((void)"size mismatch in span's constructor (ptr, ptr)",
-                   Extent == distance(_f, _l)));
+                   Extent == std::distance(_f, _l)));
     }
 
     Vc_CONSTEXPR span(element_type (&_arr)[Extent]) noexcept : data_{_arr} {}
@@ -363,7 +364,7 @@ public:
     Vc_CONSTEXPR span& operator=(const span&) noexcept = default;
 
     Vc_CONSTEXPR span(pointer _ptr, index_type _count) : data_{_ptr}, size_{_count} {}
-    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{distance(_f, _l)} {}
+    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{std::distance(_f, _l)} {}
 
     template <size_t Sz>
     inline Vc_CONSTEXPR span(element_type (&_arr)[Sz]) noexcept : data_{_arr}, size_{Sz}
@@ -541,7 +542,8 @@ private:
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator==(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return lhs.size() == rhs.size() &&
+           std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
@@ -553,7 +555,7 @@ Vc_CONSTEXPR bool operator!=(const span<T1, Extent1>& lhs, const span<T2, Extent
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator<(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
-- 
2.43.0


From c6587f19aa86b7e0d73383923c03ca6f3eab04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 46/59] fix: Iterator::operator[] must be relative to the
 iterator position

it[n] ignored the iterator's own position and accessed lane n of the
vector (or mask) instead of *(it + n).
---
 Vc/common/iterators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 5c4ec64..58a6b38 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -55,7 +55,7 @@ public:
     using difference_type = int;
     using reference = value_type;
     Vc_ALWAYS_INLINE reference operator*() const { return v()[i()]; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i2]; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i() + i2]; }
 
 private:
     Vc_INTRINSIC V &v() const { return *static_cast<const Iterator<V> *>(this)->v; }
@@ -73,7 +73,7 @@ public:
     using difference_type = int;
     using reference = Vc::Detail::ElementReference<V, IteratorBase>;
     Vc_ALWAYS_INLINE reference operator*() const { return {*v(), i()}; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i2}; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i() + i2}; }
 
 private:
     Vc_INTRINSIC V *v() const { return static_cast<const Iterator<V> *>(this)->v; }
-- 
2.43.0


From 6eb5c520cbcf69f59781a4d80580c9bdbce89c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 47/59] fix: uint_v::generate must convert the generated values
 to unsigned int

The values were converted directly to the int parameters of
_mm(256)_setr_epi32, so a generator returning a floating-point type lost
every value above INT_MAX.
---
 Vc/avx/vector.tcc | 16 ++++++++--------
 Vc/sse/vector.tcc |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 0dca750..530a5fa 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -179,14 +179,14 @@ template <> template <typename G> Vc_INTRINSIC AVX2::int_v AVX2::int_v::generate
 }
 template <> template <typename G> Vc_INTRINSIC AVX2::uint_v AVX2::uint_v::generate(G gen)
 {
-    const auto tmp0 = gen(0);
-    const auto tmp1 = gen(1);
-    const auto tmp2 = gen(2);
-    const auto tmp3 = gen(3);
-    const auto tmp4 = gen(4);
-    const auto tmp5 = gen(5);
-    const auto tmp6 = gen(6);
-    const auto tmp7 = gen(7);
+    const uint tmp0 = gen(0);
+    const uint tmp1 = gen(1);
+    const uint tmp2 = gen(2);
+    const uint tmp3 = gen(3);
+    const uint tmp4 = gen(4);
+    const uint tmp5 = gen(5);
+    const uint tmp6 = gen(6);
+    const uint tmp7 = gen(7);
     return _mm256_setr_epi32(tmp0, tmp1, tmp2, tmp3, tmp4, tmp5, tmp6, tmp7);
 }
 template <> template <typename G> Vc_INTRINSIC AVX2::short_v AVX2::short_v::generate(G gen)
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 722262d..a7cd11a 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -668,10 +668,10 @@ template <> template <typename G> Vc_INTRINSIC SSE::int_v SSE::int_v::generate(G
 }
 template <> template <typename G> Vc_INTRINSIC SSE::uint_v SSE::uint_v::generate(G gen)
 {
-    const auto tmp0 = gen(0);
-    const auto tmp1 = gen(1);
-    const auto tmp2 = gen(2);
-    const auto tmp3 = gen(3);
+    const uint tmp0 = gen(0);
+    const uint tmp1 = gen(1);
+    const uint tmp2 = gen(2);
+    const uint tmp3 = gen(3);
     return _mm_setr_epi32(tmp0, tmp1, tmp2, tmp3);
 }
 template <> template <typename G> Vc_INTRINSIC SSE::short_v SSE::short_v::generate(G gen)
-- 
2.43.0


From 0cc69fca405b2c6da33f787500a6024d5511a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 48/59] fix: Mask::generate must call the generator in lane
 order

The generator calls were function arguments, whose evaluation order is
unspecified (GCC evaluates them last to first), so a generator with state
produced a reversed mask.
---
 Vc/avx/mask.tcc | 56 ++++++++++++++++++++++++++++++++++++-------------
 Vc/sse/mask.tcc | 30 +++++++++++++++++++-------
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/Vc/avx/mask.tcc b/Vc/avx/mask.tcc
index 29631ad..9e54a2c 100644
--- a/Vc/avx/mask.tcc
+++ b/Vc/avx/mask.tcc
@@ -113,29 +113,57 @@ template <typename T> Vc_INTRINSIC bool Mask<T, VectorAbi::Avx>::isMix() const {
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 4 + 32>)
 {
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    const bool m2 = gen(2);
+    const bool m3 = gen(3);
     return _mm256_setr_epi64x(
-        gen(0) ? 0xffffffffffffffffull : 0, gen(1) ? 0xffffffffffffffffull : 0,
-        gen(2) ? 0xffffffffffffffffull : 0, gen(3) ? 0xffffffffffffffffull : 0);
+        m0 ? 0xffffffffffffffffull : 0, m1 ? 0xffffffffffffffffull : 0,
+        m2 ? 0xffffffffffffffffull : 0, m3 ? 0xffffffffffffffffull : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 8 + 32>)
 {
-    return _mm256_setr_epi32(gen(0) ? 0xfffffffful : 0, gen(1) ? 0xfffffffful : 0,
-                             gen(2) ? 0xfffffffful : 0, gen(3) ? 0xfffffffful : 0,
-                             gen(4) ? 0xfffffffful : 0, gen(5) ? 0xfffffffful : 0,
-                             gen(6) ? 0xfffffffful : 0, gen(7) ? 0xfffffffful : 0);
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    const bool m2 = gen(2);
+    const bool m3 = gen(3);
+    const bool m4 = gen(4);
+    const bool m5 = gen(5);
+    const bool m6 = gen(6);
+    const bool m7 = gen(7);
+    return _mm256_setr_epi32(m0 ? 0xfffffffful : 0, m1 ? 0xfffffffful : 0,
+                             m2 ? 0xfffffffful : 0, m3 ? 0xfffffffful : 0,
+                             m4 ? 0xfffffffful : 0, m5 ? 0xfffffffful : 0,
+                             m6 ? 0xfffffffful : 0, m7 ? 0xfffffffful : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 16 + 32>)
 {
-    return _mm256_setr_epi16(gen(0) ? 0xfffful : 0, gen(1) ? 0xfffful : 0,
-                             gen(2) ? 0xfffful : 0, gen(3) ? 0xfffful : 0,
-                             gen(4) ? 0xfffful : 0, gen(5) ? 0xfffful : 0,
-                             gen(6) ? 0xfffful : 0, gen(7) ? 0xfffful : 0,
-                             gen(8) ? 0xfffful : 0, gen(9) ? 0xfffful : 0,
-                             gen(10) ? 0xfffful : 0, gen(11) ? 0xfffful : 0,
-                             gen(12) ? 0xfffful : 0, gen(13) ? 0xfffful : 0,
-                             gen(14) ? 0xfffful : 0, gen(15) ? 0xfffful : 0);
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    const bool m2 = gen(2);
+    const bool m3 = gen(3);
+    const bool m4 = gen(4);
+    const bool m5 = gen(5);
+    const bool m6 = gen(6);
+    const bool m7 = gen(7);
+    const bool m8 = gen(8);
+    const bool m9 = gen(9);
+    const bool m10 = gen(10);
+    const bool m11 = gen(11);
+    const bool m12 = gen(12);
+    const bool m13 = gen(13);
+    const bool m14 = gen(14);
+    const bool m15 = gen(15);
+    return _mm256_setr_epi16(m0 ? 0xfffful : 0, m1 ? 0xfffful : 0,
+                             m2 ? 0xfffful : 0, m3 ? 0xfffful : 0,
+                             m4 ? 0xfffful : 0, m5 ? 0xfffful : 0,
+                             m6 ? 0xfffful : 0, m7 ? 0xfffful : 0,
+                             m8 ? 0xfffful : 0, m9 ? 0xfffful : 0,
+                             m10 ? 0xfffful : 0, m11 ? 0xfffful : 0,
+                             m12 ? 0xfffful : 0, m13 ? 0xfffful : 0,
+                             m14 ? 0xfffful : 0, m15 ? 0xfffful : 0);
 }
 template <typename T>
 template <typename G>
diff --git a/Vc/sse/mask.tcc b/Vc/sse/mask.tcc
index efcf150..170c163 100644
--- a/Vc/sse/mask.tcc
+++ b/Vc/sse/mask.tcc
@@ -234,22 +234,36 @@ template<typename T> Vc_ALWAYS_INLINE Vc_PURE int Mask<T, VectorAbi::Sse>::first
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 2>)
 {
-    return _mm_set_epi64x(gen(1) ? 0xffffffffffffffffull : 0,
-                          gen(0) ? 0xffffffffffffffffull : 0);
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    return _mm_set_epi64x(m1 ? 0xffffffffffffffffull : 0,
+                          m0 ? 0xffffffffffffffffull : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 4>)
 {
-    return _mm_setr_epi32(gen(0) ? 0xfffffffful : 0, gen(1) ? 0xfffffffful : 0,
-                          gen(2) ? 0xfffffffful : 0, gen(3) ? 0xfffffffful : 0);
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    const bool m2 = gen(2);
+    const bool m3 = gen(3);
+    return _mm_setr_epi32(m0 ? 0xfffffffful : 0, m1 ? 0xfffffffful : 0,
+                          m2 ? 0xfffffffful : 0, m3 ? 0xfffffffful : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 8>)
 {
-    return _mm_setr_epi16(gen(0) ? 0xffffu : 0, gen(1) ? 0xffffu : 0,
-                          gen(2) ? 0xffffu : 0, gen(3) ? 0xffffu : 0,
-                          gen(4) ? 0xffffu : 0, gen(5) ? 0xffffu : 0,
-                          gen(6) ? 0xffffu : 0, gen(7) ? 0xffffu : 0);
+    const bool m0 = gen(0);
+    const bool m1 = gen(1);
+    const bool m2 = gen(2);
+    const bool m3 = gen(3);
+    const bool m4 = gen(4);
+    const bool m5 = gen(5);
+    const bool m6 = gen(6);
+    const bool m7 = gen(7);
+    return _mm_setr_epi16(m0 ? 0xffffu : 0, m1 ? 0xffffu : 0,
+                          m2 ? 0xffffu : 0, m3 ? 0xffffu : 0,
+                          m4 ? 0xffffu : 0, m5 ? 0xffffu : 0,
+                          m6 ? 0xffffu : 0, m7 ? 0xffffu : 0);
 }
 template <typename T>
 template <typename G>
-- 
2.43.0


From 4fd9bbbda3778ed3cba0ee9b14cc97ce74e0d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 49/59] fix: member subscripts of const containers must accept
 array members

The sanity check compared decayed types, i.e. const T * with T *, and
therefore rejected every array member of a struct in a const container.
---
 Vc/common/subscript.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Vc/common/subscript.h b/Vc/common/subscript.h
index 1ccf1b4..21e9060 100644
--- a/Vc/common/subscript.h
+++ b/Vc/common/subscript.h
@@ -347,8 +347,10 @@ public:
               // 20/16)
               std::ratio_multiply<Scale, std::ratio<sizeof(S), sizeof(U)>>>
     {
-        static_assert(std::is_same<Traits::decay<decltype(m_address->*member)>,
-                                   Traits::decay<U>>::value,
+        // not Traits::decay: it does not drop the const of the entries of an array
+        static_assert(std::is_same<typename std::remove_cv<typename std::remove_reference<
+                                       decltype(m_address->*member)>::type>::type,
+                                   typename std::remove_cv<U>::type>::value,
                       "Type mismatch that should be impossible.");
         // TODO: check whether scale really works for unions correctly
         return {&(m_address->*member), m_indexes};
-- 
2.43.0


From f94718245dbb9aeec6a4fc170d5364c2eecf2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 50/59] fix: index vectors behind a struct member must not lose
 a non-integral scale

array[indexes][&S::members][indexes2] computed indexes * (sizeof(S) /
sizeof(element)) with the quotient truncated and silently accessed the
wrong elements whenever sizeof(S) is not a multiple of the element size.
Scale the sum with the denominator instead and pass it on, so that a
following member or element subscript can cancel it.
---
 Vc/common/subscript.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/Vc/common/subscript.h b/Vc/common/subscript.h
index 21e9060..ec22fb7 100644
--- a/Vc/common/subscript.h
+++ b/Vc/common/subscript.h
@@ -142,12 +142,19 @@ Vc_ALWAYS_INLINE enable_if<
     return x;
 }
 
+// The result of applyScaleAndAdd is (x * Scale + y) * Scale::den. I.e. if the scale is
+// non-integral the resulting indexes have to be scaled with 1/Scale::den.
 template <typename Scale, typename T, typename U,
           typename = enable_if<Traits::has_multiply_operator<T, int>::value &&
                                Traits::has_addition_operator<T, U>::value>>
 Vc_ALWAYS_INLINE typename std::decay<T>::type applyScaleAndAdd(T &&x, U &&y)
 {
-    constexpr int value = Scale::num / Scale::den;
+    constexpr int value = Scale::num;
+    constexpr int denominator = Scale::den;
+    if (denominator != 1) {  // static evaluation
+        // (x - x) + y promotes y to the type of the sum before it is scaled
+        return x * value + ((x - x) + y) * denominator;
+    }
     if (value == 1) {  // static evaluation
         return std::forward<T>(x) + std::forward<U>(y);
     }
@@ -162,12 +169,13 @@ template <
         Traits::has_subscript_operator<U>::value>>
 Vc_ALWAYS_INLINE T applyScaleAndAdd(T x, U &&y)
 {
-    constexpr int value = Scale::num / Scale::den;
+    constexpr int value = Scale::num;
+    constexpr int denominator = Scale::den;
     for (size_t i = 0; i < x.size(); ++i) {
         if (value == 1) {  // static evaluation
-            x[i] = x[i] + y[i];
+            x[i] = x[i] + y[i] * denominator;
         } else {
-            x[i] = x[i] * value + y[i];
+            x[i] = x[i] * value + y[i] * denominator;
         }
     }
     return x;
@@ -180,12 +188,13 @@ Vc_ALWAYS_INLINE enable_if<!(Traits::has_multiply_operator<T &, int>::value &&
                            T>
     applyScaleAndAdd(T x, U &&y)
 {
-    constexpr int value = Scale::num / Scale::den;
+    constexpr int value = Scale::num;
+    constexpr int denominator = Scale::den;
     for (size_t i = 0; i < x.size(); ++i) {
         if (value == 1) {  // static evaluation
-            x[i] = x[i] + y;
+            x[i] = x[i] + y * denominator;
         } else {
-            x[i] = x[i] * value + y;
+            x[i] = x[i] * value + y * denominator;
         }
     }
     return x;
@@ -436,7 +445,13 @@ public:
                                // m_address[0][0] expression dependent on IT
                                )>::type,
                            IndexVectorScaled,
-                           std::ratio<1, 1>  // reset Scale to 1 since it is applied below
+                           // reset Scale since it is applied below, except for the
+                           // denominator of a non-integral Scale
+                           std::ratio<1, std::ratio_multiply<
+                                             Scale, typename make_ratio<
+                                                        sizeof(T),
+                                                        sizeof(m_address[0][std::declval<
+                                                            const IT &>()[0]])>::type>::den>
                            >>::type
     operator[](const IT &index) &&
     {
-- 
2.43.0


From 0a397cbf49ac344804671c02aca62abc9f2d2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 51/59] fix: exp(double_v) must not overflow below log(max)

---
 Vc/common/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/math.h b/Vc/common/math.h
index b2e529b..a9ce705 100644
--- a/Vc/common/math.h
+++ b/Vc/common/math.h
@@ -61,7 +61,7 @@ inline AVX::double_v exp(AVX::double_v _x)
         typedef V::Mask M;
     typedef AVX::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
@@ -101,7 +101,7 @@ inline SSE::double_v exp(SSE::double_v::AsArg _x) {
         typedef V::Mask M;
     typedef SSE::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
-- 
2.43.0


From 7d2ff551c001c9a81c9ec7cc17b70a744ab94fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 52/59] fix: exp(float_v) must flush results below the normal
 range to zero

---
 Vc/common/exponential.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/exponential.h b/Vc/common/exponential.h
index a17ae3a..2bcef02 100644
--- a/Vc/common/exponential.h
+++ b/Vc/common/exponential.h
@@ -45,7 +45,7 @@ constexpr float log2_e = 1.44269504088896341f;
 // constexpr float MINLOGF = -103.278929903431851103f; /* log(2^-149) */
 
 constexpr float MAXLOGF = 88.722831726074219f; /* log(2^127.99998474121094f) */
-constexpr float MINLOGF = -88.029685974121094f; /* log(2^-126.99999237060547f) */
+constexpr float MINLOGF = -87.336544036865234f; /* log(2^-125.99999237060547f) */
 constexpr float MAXNUMF = 3.4028234663852885981170418348451692544e38f;
 
 template <typename Abi, typename = enable_if<std::is_same<Abi, VectorAbi::Sse>::value ||
-- 
2.43.0


From 419f14a2464061e936296cc4649328829f5f24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 53/59] fix: logarithms of infinity and NaN

---
 Vc/common/logarithm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Vc/common/logarithm.h b/Vc/common/logarithm.h
index a4a7bf9..9dea6f9 100644
--- a/Vc/common/logarithm.h
+++ b/Vc/common/logarithm.h
@@ -224,6 +224,7 @@ static inline Vector<T, Abi> calc(V _x)
         const M invalidMask = x < V::Zero();
         const M infinityMask = x == V::Zero();
         const M denormal = x <= C::min();
+        const M nonFinite = !isfinite(x);
 
         x(denormal) *= V(Vc::Detail::doubleConstant<1, 0, 54>()); // 2²⁵
         V exponent = Detail::exponent(x.data());                    // = ⎣log₂(x)⎦
@@ -246,6 +247,7 @@ static inline Vector<T, Abi> calc(V _x)
 
         log_series(x, exponent); // A: (ˣ⁄₂ᵉ - 1, e)  B: (ˣ⁄₂ᵉ⁺¹ - 1, e + 1)
 
+        x(nonFinite) = _x;             // +∞ → +∞, NaN → NaN
         x.setQnan(invalidMask);        // x < 0 → NaN
         x(infinityMask) = C::neginf(); // x = 0 → -∞
 
-- 
2.43.0


From 7fbfa4a6effc3c0f1ae983a6696dee0d63ec2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 54/59] fix: asin and atan of negative zero

---
 src/trigonometric.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index a03d75e..be2f863 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -406,7 +406,7 @@ Vc::float_v Trigonometric<Vc::Detail::TrigonometricImplementation<
     typedef Const<float, V::abi> C;
     typedef V::Mask M;
 
-    const M &negative = _x < V::Zero();
+    const M &negative = isnegative(_x);
 
     const V &a = abs(_x);
     const M outOfRange = a > V::One();
@@ -486,7 +486,7 @@ Vc::float_v Trigonometric<Vc::Detail::TrigonometricImplementation<
           + C::atanP(2)) * x2
           - C::atanP(3)) * x2 * x
           + x;
-    y(_x < V::Zero()) = -y;
+    y(isnegative(_x)) = -y;
     y.setQnan(isnan(_x));
     return y;
 }
@@ -495,7 +495,7 @@ template<> template<> Vc::double_v Trigonometric<Vc::Detail::TrigonometricImplem
     typedef Const<double, V::abi> C;
     typedef V::Mask M;
 
-    M sign = _x < V::Zero();
+    M sign = isnegative(_x);
     V x = abs(_x);
     M finite = isfinite(_x);
     V ret = C::_pi_2();
-- 
2.43.0


From 6d8b3a40ad72c22fb6cd19f96c1f3edfcd58f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 55/59] fix: range reduction of sin and cos close to multiples
 of pi/2

---
 src/trigonometric.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index be2f863..6b00e75 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -147,7 +147,8 @@ static Vc_ALWAYS_INLINE folded<float, Abi> foldInput(const Vector<float, Abi> &x
         V y = round(r.x * _2_over_pi);
         r.quadrant = simd_cast<V>(simd_cast<IV>(y) & 3);            // y mod 4
         r.x -= y * Vc::Detail::floatConstant<1, 0x490fe0, 0>();     // pi/2
-        r.x -= y * Vc::Detail::floatConstant<-1, 0x2bbbd3, -21>();  // pi/2 remainder
+        r.x -= y * Vc::Detail::floatConstant<-1, 0x2bbbc0, -21>();  // pi/2 remainder
+        r.x -= y * Vc::Detail::floatConstant<-1, 0x173dcb, -40>();  // pi/2 remainder
     } else {
         typedef SimdArray<double, V::size()> VD;
         VD xd = simd_cast<VD>(abs(r.x));
@@ -155,8 +156,10 @@ static Vc_ALWAYS_INLINE folded<float, Abi> foldInput(const Vector<float, Abi> &x
             Vc::Detail::doubleConstant<1, 0x45F306DC9C883, -1>();
         VD y = round(xd * _2_over_pi);
         r.quadrant = simd_cast<V>(simd_cast<IV>(y) & 3);  // = y mod 4
-        constexpr double pi_over_2 = Vc::Detail::doubleConstant<1, 0x921FB54442D18, 0>();
-        r.x = simd_cast<V>(xd - y * pi_over_2);
+        // x - y * pi/2, y uses no more than 19 mantissa bits
+        xd -= y * Vc::Detail::doubleConstant<1, 0x921FB54400000, 0>();
+        xd -= y * Vc::Detail::doubleConstant<1, 0x0B4611A626331, -34>();
+        r.x = simd_cast<V>(xd);
     }
     //std::cout << std::hexfloat << r.x << ' ' << r.quadrant << std::defaultfloat << '\n';
     return r;
@@ -217,7 +220,8 @@ static Vc_ALWAYS_INLINE folded<double, Abi> foldInput(const Vector<double, Abi>
         // x - y * pi/2, y uses no more than 29 mantissa bits
         r.x -= y * Vc::Detail::doubleConstant<1, 0x921FB40000000,   0>();
         r.x -= y * Vc::Detail::doubleConstant<1, 0x4442D00000000, -24>();
-        r.x -= y * Vc::Detail::doubleConstant<1, 0x8469898CC5170, -48>();
+        r.x -= y * Vc::Detail::doubleConstant<1, 0x8469880000000, -48>();
+        r.x -= y * Vc::Detail::doubleConstant<1, 0x8CC51701B839A, -72>();
     } else {
         // x - y * pi/2, y may require all mantissa bits
         const V y_hi = y & C::highMask(26);
-- 
2.43.0


From 9a2f574556b8f0934a552d12dae57d67dab895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 56/59] fix: zero-initialise default-constructed scalar masks

---
 Vc/scalar/mask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/scalar/mask.h b/Vc/scalar/mask.h
index dfac3c2..49b08f0 100644
--- a/Vc/scalar/mask.h
+++ b/Vc/scalar/mask.h
@@ -181,7 +181,7 @@ public:
         }
 
     private:
-        bool m;
+        bool m = bool();
 };
 template <typename T> constexpr size_t Mask<T, VectorAbi::Scalar>::Size;
 template <typename T> constexpr size_t Mask<T, VectorAbi::Scalar>::MemoryAlignment;
-- 
2.43.0


From 135f904a24be94d77685b83e26a9022ae4dde6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 57/59] fix: Vector members isNegative, exponent and copySign
 use the float and double overloads

Inside the class only the templates of common/vector.h were visible: isNegative()
returned x < 0 (wrong for -0 and NaN), exponent() of AVX vectors returned nothing
and the others did not link.
---
 Vc/avx/math.h        |  6 ++++++
 Vc/avx/vector.h      | 20 ++++++--------------
 Vc/avx/vector.tcc    | 12 ++++++++++++
 Vc/scalar/math.h     |  6 ++++++
 Vc/scalar/vector.h   | 20 ++++++--------------
 Vc/scalar/vector.tcc | 12 ++++++++++++
 Vc/sse/math.h        |  6 ++++++
 Vc/sse/vector.h      | 20 ++++++--------------
 Vc/sse/vector.tcc    | 12 ++++++++++++
 9 files changed, 72 insertions(+), 42 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index b92626d..d22551c 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -147,6 +147,12 @@ Vc_INTRINSIC Vc_CONST AVX2::double_v copysign(AVX2::double_v::AsArg mag,
     return _mm256_or_pd(_mm256_and_pd(sign.data(), AVX::setsignmask_pd()),
                         _mm256_and_pd(mag.data(), AVX::setabsmask_pd()));
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Avx> Vector<T, VectorAbi::Avx>::copySign(AsArg x) const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::copysign(*this, x);
+}
 
 //}}}1
 // frexp {{{1
diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index 2af28ea..ddb871d 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -327,11 +327,8 @@ public:
         Vc_ALWAYS_INLINE_L Vector operator>>(int x) const Vc_ALWAYS_INLINE_R;
         Vc_ALWAYS_INLINE_L Vector operator<<(int x) const Vc_ALWAYS_INLINE_R;
 
-        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
-            isNegative() const
-        {
-            return Vc::isnegative(*this);
-        }
+        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC_L Vc_PURE_L Mask
+            isNegative() const Vc_INTRINSIC_R Vc_PURE_R;
 
         Vc_ALWAYS_INLINE void assign( const Vector &v, const Mask &mask ) {
             data() = Detail::blend(data(), v.data(), mask.data());
@@ -431,16 +428,11 @@ public:
 
         template <typename G> static Vc_INTRINSIC_L Vector generate(G gen) Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector
-            copySign(AsArg x) const
-        {
-            return Vc::copysign(*this, x);
-        }
+        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC_L Vector
+            copySign(AsArg x) const Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
-        {
-            Vc::exponent(*this);
-        }
+        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC_L Vector
+            exponent() const Vc_INTRINSIC_R;
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
         Vc_INTRINSIC_L Vector interleaveHigh(Vector x) const Vc_INTRINSIC_R;
diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 530a5fa..10f2094 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -385,6 +385,12 @@ Vc_INTRINSIC Vc_CONST AVX2::double_m isnegative(AVX2::double_v x)
     return Mem::permute<X1, X1, X3, X3>(AVX::avx_cast<__m256>(AVX::srai_epi32<31>(
         AVX::avx_cast<__m256i>(_mm256_and_pd(AVX::setsignmask_pd(), x.data())))));
 }
+template <typename T>
+Vc_INTRINSIC Vc_PURE typename Vector<T, VectorAbi::Avx>::Mask Vector<T, VectorAbi::Avx>::isNegative() const
+{
+    // the overloads above must be visible, otherwise the generic x < 0 is used
+    return Vc::isnegative(*this);
+}
 // gathers {{{1
 #define Vc_GATHER_IMPL(V_)                                                               \
     template <>                                                                          \
@@ -659,6 +665,12 @@ Vc_INTRINSIC Vc_CONST AVX2::double_v exponent(AVX2::double_v x)
     Vc_ASSERT((x >= x.Zero()).isFull());
     return Detail::exponent(x.data());
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Avx> Vector<T, VectorAbi::Avx>::exponent() const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::exponent(*this);
+}
 // }}}1
 // Random {{{1
 static Vc_ALWAYS_INLINE __m256i _doRandomStep()
diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index a9afb40..ce55236 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -57,6 +57,12 @@ Vc_INTRINSIC Vc_CONST Scalar::double_v copysign(Scalar::double_v mag,
     value.i = (s.i & 0x8000000000000000ull) | (value.i & 0x7fffffffffffffffull);
     return Scalar::double_v{value.f};
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Scalar> Vc_VDECL Vector<T, VectorAbi::Scalar>::copySign(Vector x) const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::copysign(*this, x);
+}
 
 // }}}1
 
diff --git a/Vc/scalar/vector.h b/Vc/scalar/vector.h
index c6d979a..be2fb15 100644
--- a/Vc/scalar/vector.h
+++ b/Vc/scalar/vector.h
@@ -197,11 +197,8 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
         Vc_ALL_SHIFTS(Vc_OP);
 #undef Vc_OP
 
-        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
-            isNegative() const
-        {
-            return Vc::isnegative(*this);
-        }
+        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC_L Vc_PURE_L Mask
+            isNegative() const Vc_INTRINSIC_R Vc_PURE_R;
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &m) {
           if (m.data()) m_data = v.m_data;
@@ -286,16 +283,11 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
             return gen(0);
         }
 
-        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector Vc_VDECL
-            copySign(Vector x) const
-        {
-            return Vc::copysign(*this, x);
-        }
+        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC_L Vector Vc_VDECL
+            copySign(Vector x) const Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
-        {
-            return Vc::exponent(*this);
-        }
+        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC_L Vector
+            exponent() const Vc_INTRINSIC_R;
 
         Vc_INTRINSIC Vector Vc_VDECL interleaveLow(Vector) const { return *this; }
         Vc_INTRINSIC Vector Vc_VDECL interleaveHigh(Vector x) const { return x; }
diff --git a/Vc/scalar/vector.tcc b/Vc/scalar/vector.tcc
index 5acbd2a..2378324 100644
--- a/Vc/scalar/vector.tcc
+++ b/Vc/scalar/vector.tcc
@@ -132,6 +132,12 @@ Vc_INTRINSIC Vc_CONST Scalar::double_v Vc_VDECL exponent(Scalar::double_v x)
     value.f = x.data();
     return Scalar::double_v(static_cast<double>((value.i >> 52) - 0x3ff));
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Scalar> Vector<T, VectorAbi::Scalar>::exponent() const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::exponent(*this);
+}
 
 // Random {{{1
 static Vc_ALWAYS_INLINE void _doRandomStep(Scalar::uint_v &state0, Scalar::uint_v &state1)
@@ -191,6 +197,12 @@ Vc_INTRINSIC Vc_CONST Scalar::double_m Vc_VDECL isnegative(Scalar::double_v x)
     u.d = x.data();
     return Scalar::double_m(0ull != (u.l & 0x8000000000000000ull));
 }
+template <typename T>
+Vc_INTRINSIC Vc_PURE typename Vector<T, VectorAbi::Scalar>::Mask Vector<T, VectorAbi::Scalar>::isNegative() const
+{
+    // the overloads above must be visible, otherwise the generic x < 0 is used
+    return Vc::isnegative(*this);
+}
 
 // setQnan {{{1
 template<typename T> Vc_INTRINSIC void Vector<T, VectorAbi::Scalar>::setQnan()
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index e530420..df45943 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -44,6 +44,12 @@ Vc_INTRINSIC Vc_CONST SSE::double_v copysign(SSE::double_v mag, SSE::double_v si
     return _mm_or_pd(_mm_and_pd(sign.data(), SSE::_mm_setsignmask_pd()),
                      _mm_and_pd(mag.data(), SSE::_mm_setabsmask_pd()));
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Sse> Vector<T, VectorAbi::Sse>::copySign(AsArg x) const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::copysign(*this, x);
+}
 
 //}}}1
 
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 0bf621a..c1f54f6 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -270,11 +270,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
         Vc_INTRINSIC_L Vector &Vc_VDECL operator>>=(  int shift)       Vc_INTRINSIC_R;
         Vc_INTRINSIC_L Vector  Vc_VDECL operator>> (  int shift) const Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
-            isNegative() const
-        {
-            return Vc::isnegative(*this);
-        }
+        Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC_L Vc_PURE_L Mask
+            isNegative() const Vc_INTRINSIC_R Vc_PURE_R;
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &mask)
         {
@@ -367,16 +364,11 @@ template <typename T> class Vector<T, VectorAbi::Sse>
 
         template <typename G> static Vc_INTRINSIC_L Vector generate(G gen) Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector
-            copySign(AsArg x) const
-        {
-            return Vc::copysign(*this, x);
-        }
+        Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC_L Vector
+            copySign(AsArg x) const Vc_INTRINSIC_R;
 
-        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
-        {
-            return Vc::exponent(*this);
-        }
+        Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC_L Vector
+            exponent() const Vc_INTRINSIC_R;
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
         Vc_INTRINSIC_L Vector interleaveHigh(Vector x) const Vc_INTRINSIC_R;
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index a7cd11a..574d753 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -322,6 +322,12 @@ Vc_INTRINSIC Vc_CONST SSE::double_m isnegative(SSE::double_v x)
     return Mem::permute<X1, X1, X3, X3>(sse_cast<__m128>(_mm_srai_epi32(
         sse_cast<__m128i>(_mm_and_pd(SSE::_mm_setsignmask_pd(), x.data())), 31)));
 }
+template <typename T>
+Vc_INTRINSIC Vc_PURE typename Vector<T, VectorAbi::Sse>::Mask Vector<T, VectorAbi::Sse>::isNegative() const
+{
+    // the overloads above must be visible, otherwise the generic x < 0 is used
+    return Vc::isnegative(*this);
+}
 
 // gathers {{{1
 #define Vc_GATHER_IMPL(V_)                                                               \
@@ -480,6 +486,12 @@ Vc_INTRINSIC Vc_CONST SSE::double_v exponent(SSE::double_v x)
     Vc_ASSERT((x >= x.Zero()).isFull());
     return Detail::exponent(x.data());
 }
+template <typename T>
+Vc_INTRINSIC Vector<T, VectorAbi::Sse> Vector<T, VectorAbi::Sse>::exponent() const
+{
+    // the overloads above must be visible, the template in common/vector.h has no definition
+    return Vc::exponent(*this);
+}
 // }}}1
 // Random {{{1
 static void _doRandomStep(SSE::uint_v &state0,
-- 
2.43.0


From 216d8bbd8dad6b4cdd61532232bd3da3590ea5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 58/59] fix: make_unique releases its memory when the
 constructor throws

---
 Vc/common/make_unique.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Vc/common/make_unique.h b/Vc/common/make_unique.h
index 709582d..1f68818 100644
--- a/Vc/common/make_unique.h
+++ b/Vc/common/make_unique.h
@@ -47,7 +47,12 @@ template<typename T> struct Deleter
 template<class T, MallocAlignment A = Vc::AlignOnVector, class... Args>
 inline std::unique_ptr<T, Deleter<T>> make_unique(Args&&... args)
 {
-    return std::unique_ptr<T, Deleter<T>>(new(Vc::malloc<T, A>(1)) T(std::forward<Args>(args)...));
+    // owns the memory until the constructor of T has succeeded
+    struct Free { void operator()(T *ptr) { Vc::free(ptr); } };
+    std::unique_ptr<T, Free> memory(Vc::malloc<T, A>(1));
+    std::unique_ptr<T, Deleter<T>> r(new(memory.get()) T(std::forward<Args>(args)...));
+    memory.release();
+    return r;
 }
 
 }  // namespace Common
-- 
2.43.0


From 817da3c7f2142b40cc53b727f237ad6de217f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 59/59] fix: AVX2 gathers with unsigned indexes of 2^31 or more

---
 Vc/avx/vector.h     | 10 ++++++----
 Vc/sse/intrinsics.h | 15 +++++++++++++++
 Vc/sse/vector.h     |  7 ++++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index ddb871d..9c660d8 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -207,8 +207,9 @@ public:
             const Common::GatherArguments<T, Vector<U, A>, Scale> &args)
         {
             d.v() = AVX::gather<sizeof(T) * Scale>(
-                args.address,
-                simd_cast<conditional_t<Size == 4, SSE::int_v, AVX2::int_v>>(args.indexes)
+                SSE::gatherAddress<U, sizeof(T) * Scale>(args.address),
+                SSE::gatherIndex<U>(
+                    simd_cast<conditional_t<Size == 4, SSE::int_v, AVX2::int_v>>(args.indexes))
                     .data());
         }
 
@@ -219,8 +220,9 @@ public:
             const Common::GatherArguments<T, Vector<U, A>, Scale> &args, MaskArgument k)
         {
             d.v() = AVX::gather<sizeof(T) * Scale>(
-                d.v(), k.data(), args.address,
-                simd_cast<conditional_t<Size == 4, SSE::int_v, AVX2::int_v>>(args.indexes)
+                d.v(), k.data(), SSE::gatherAddress<U, sizeof(T) * Scale>(args.address),
+                SSE::gatherIndex<U>(
+                    simd_cast<conditional_t<Size == 4, SSE::int_v, AVX2::int_v>>(args.indexes))
                     .data());
         }
 
diff --git a/Vc/sse/intrinsics.h b/Vc/sse/intrinsics.h
index 2d54954..2a97714 100644
--- a/Vc/sse/intrinsics.h
+++ b/Vc/sse/intrinsics.h
@@ -36,6 +36,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "../common/storage.h"
 #include "const_data.h"
+#include <cstdint>
 #include <cstdlib>
 #include "types.h"
 #include "debug.h"
@@ -618,6 +619,20 @@ namespace SseIntrinsics
 #endif
 
 #ifdef Vc_IMPL_AVX2
+// The gather instructions sign-extend 32-bit indexes. Therefore, unsigned 32-bit indexes use
+// gatherIndex(idx) == idx - 2³¹ relative to gatherAddress(addr) == addr + 2³¹ * Scale bytes.
+template <class U, int Scale, class T> Vc_INTRINSIC const T *gatherAddress(const T *addr)
+{
+    return std::is_unsigned<U>::value && sizeof(U) == 4
+               ? reinterpret_cast<const T *>(reinterpret_cast<std::uintptr_t>(addr) +
+                                             (std::uintptr_t(Scale) << 31))
+               : addr;
+}
+template <class U, class IV> Vc_INTRINSIC IV gatherIndex(IV idx)
+{
+    return std::is_unsigned<U>::value && sizeof(U) == 4 ? idx ^ IV(-0x7fffffff - 1) : idx;
+}
+
 template <int Scale> __m128 gather(const float *addr, __m128i idx)
 {
     return _mm_i32gather_ps(addr, idx, Scale);
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index c1f54f6..c934ee4 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -162,7 +162,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
             const Common::GatherArguments<T, Vector<U, A>, Scale> &args)
         {
             d.v() = SSE::gather<sizeof(T) * Scale>(
-                args.address, simd_cast<SSE::int_v>(args.indexes).data());
+                SSE::gatherAddress<U, sizeof(T) * Scale>(args.address),
+                SSE::gatherIndex<U>(simd_cast<SSE::int_v>(args.indexes)).data());
         }
 
         // masked overload
@@ -172,8 +173,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
             const Common::GatherArguments<T, Vector<U, A>, Scale> &args, MaskArgument k)
         {
             d.v() = SSE::gather<sizeof(T) * Scale>(
-                d.v(), k.data(), args.address,
-                simd_cast<SSE::int_v>(args.indexes).data());
+                d.v(), k.data(), SSE::gatherAddress<U, sizeof(T) * Scale>(args.address),
+                SSE::gatherIndex<U>(simd_cast<SSE::int_v>(args.indexes)).data());
         }
 
         // Gathers of 16-bit entries from 8-bit and 16-bit integers are not emulated via epi32
-- 
2.43.0

