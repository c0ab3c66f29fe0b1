From 7930c6c96c211f35740304d7bf8d6819e9150188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 1/5] fix: saturate INT_MIN*INT_MIN to INT_MAX in the SSE and
 AVX SaturatingRoundingDoublingHighMul

---
 fixedpoint/fixedpoint_avx.h | 4 +++-
 fixedpoint/fixedpoint_sse.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..c895cc3 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -348,7 +348,9 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..e2c94c9 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -352,7 +352,9 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
-- 
2.43.0


From d00d8fc6bc23fca1a26842c9bc0198e544a3f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 2/5] fix: FixedPointRawTypeTraits<__m256i> has 8 lanes

---
 fixedpoint/fixedpoint_avx.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index c895cc3..4d84a39 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -38,9 +38,7 @@ inline int16x16_m256i to_int16x16_m256i(__m256i w) {
 template <>
 struct FixedPointRawTypeTraits<__m256i> {
   typedef std::int32_t ScalarRawType;
-  // TODO: This can actually support up to 8 lanes, so we should either
-  // change to 8 or create int32x8_m256i struct to handle that case.
-  static const int kLanes = 4;
+  static const int kLanes = 8;
 };
 
 template <>
-- 
2.43.0


From 571be57bf0278b6e5e880f2b3b00f36f9237547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:40 +0000
Subject: [PATCH 3/5] fix: All/Any on SSE and AVX masks test all lanes

_mm_testc_si128(a, a) is true for every a, so All (and with it operator== on
SIMD FixedPoint values) was always true; on AVX, Any used BitNot on an int
condition and was always true as well.
---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index 4d84a39..4f92152 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -255,22 +255,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi16(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index e2c94c9..e31a74f 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi16(-1));
 }
 
 template <>
-- 
2.43.0


From 1c934998bd800db96b2ad6fe76c0b89e12844e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:26 +0000
Subject: [PATCH 4/5] fix: RoundUpToPowerOfTwo handles 64-bit arguments above
 2^32

---
 internal/common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/common.h b/internal/common.h
index 708cc40..bc0dba3 100644
--- a/internal/common.h
+++ b/internal/common.h
@@ -160,6 +160,9 @@ Integer RoundUpToPowerOfTwo(Integer n) {
   i |= i >> 4;
   i |= i >> 8;
   i |= i >> 16;
+  // For 64-bit types. Split in two shifts so that it is well-defined (and a
+  // no-op) for narrower types.
+  i |= (i >> 16) >> 16;
   return i + 1;
 }
 
-- 
2.43.0


From 57ddccadfe08746896646d38fc4da0e8941edf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 5/5] fix: EightBitIntGemm with float results does not read
 uninitialized scratch memory when k is 0

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..eaaf00e 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -353,6 +353,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   }
 #endif
 
+  // As in DispatchGemmShape, there is nothing to compute if any dimension is
+  // zero. Going on would read the uninitialized scratch memory below.
+  if (m == 0 || n == 0 || k == 0) {
+    return;
+  }
+
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-- 
2.43.0

