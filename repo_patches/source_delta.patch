From cb4bf3d5e10283eaa8a9ef4ee4d8e57f97976eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 01/29] fix: LoadNOr fills remaining lanes from the same
 positions in no

---
 hwy/ops/generic_ops-inl.h | 87 ++++-----------------------------------
 1 file changed, 9 insertions(+), 78 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..0731d0d 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2466,7 +2466,7 @@ HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
 
   if (num_lanes >= 2) return LoadU(d, p);
   if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
+  return ConcatUpperLower(d, no, ResizeBitCast(d, LoadU(d1, p)));
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
@@ -2541,38 +2541,11 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
   if (num_lanes >= 8) return LoadU(d, p);
   if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
 
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
+  // The remaining lanes must come from the same positions in `no`.
+  return IfThenElse(FirstN(d, num_lanes), LoadN(d, p, num_lanes), no);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
@@ -2625,54 +2598,11 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
   if (num_lanes >= 16) return LoadU(d, p);
   if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
 
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
+  // The remaining lanes must come from the same positions in `no`.
+  return IfThenElse(FirstN(d, num_lanes), LoadN(d, p, num_lanes), no);
 }
 
 #if HWY_MAX_BYTES >= 32
@@ -2700,14 +2630,15 @@ HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
 
   const Half<decltype(d)> dh;
   const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
   if (num_lanes <= half_N) {
+    const VFromD<decltype(dh)> no_lo = LowerHalf(dh, no);
     return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
+                            ResizeBitCast(d, LoadNOr(no_lo, dh, p, num_lanes)));
   } else {
+    const VFromD<decltype(dh)> no_hi = UpperHalf(dh, no);
     const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
     const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
+        LoadNOr(no_hi, dh, p + half_N, num_lanes - half_N);
     return Combine(d, v_hi, v_lo);
   }
 }
-- 
2.43.0


From 43c30b0670e1d440cfb1e7a64d1644b4630721e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 02/29] fix: 8-bit CompressBitsStore ignores mask bits past the
 last lane

---
 hwy/ops/generic_ops-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 0731d0d..34b3981 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -5832,6 +5832,8 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   Store(v, d, lanes);
 
   const Simd<T, HWY_MIN(MaxLanes(d), 8), 0> d8;
+  // Unused bits (happens if `Lanes(d) < 8`) are treated as if they were zero.
+  const size_t valid_bits = (size_t{1} << Lanes(d8)) - 1;
   T* HWY_RESTRICT pos = unaligned;
 
   HWY_ALIGN constexpr T table[2048] = {
@@ -5967,7 +5969,7 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    const size_t bits8 = bits[i / 8] & valid_bits;
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From 326dd8945f9d879e458be9ad4a3a20f7d46834a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 03/29] fix: partial-vector MaskedLoad/BlendedStore do not
 access memory past Lanes(d)

Upper lanes of masks are unspecified, but native AVX2/AVX3 masked memory
instructions act on the whole 128-bit register.
---
 hwy/ops/x86_128-inl.h | 71 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..a61fd29 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3246,107 +3246,136 @@ HWY_API VFromD<D> InterleaveLower(D /* tag */, VFromD<D> a, VFromD<D> b) {
 
 // ------------------------------ MaskedLoad
 
+#if HWY_TARGET <= HWY_AVX2
+namespace detail {
+
+// For partial vectors, ensures upper mask lanes are zero, so that memory past
+// the first `Lanes(d)` lanes is not accessed.
+template <class D, HWY_IF_V_SIZE_LE_D(D, 16)>
+HWY_INLINE MFromD<D> ZeroUpperMaskLanes(D d, MFromD<D> m) {
+  return d.MaxBytes() == 16 ? m : And(m, FirstN(d, Lanes(d)));
+}
+
+}  // namespace detail
+#endif  // HWY_TARGET <= HWY_AVX2
+
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi8(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{_mm_maskz_loadu_epi16(m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi32(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi64(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const float* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_maskz_loadu_ps(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const double* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_maskz_loadu_pd(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_mask_loadu_epi8(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{
                         _mm_mask_loadu_epi16(BitCast(du, v).raw, m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_mask_loadu_epi32(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_mask_loadu_epi64(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const float* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_mask_loadu_ps(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const double* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   return VFromD<D>{_mm_mask_loadu_pd(v.raw, m.raw, p)};
 }
 
 #elif HWY_TARGET == HWY_AVX2
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   auto p_p = reinterpret_cast<const int*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi32(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   auto p_p = reinterpret_cast<const long long*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi64(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const float* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_ps(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const double* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_pd(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
@@ -3661,39 +3690,47 @@ HWY_API void ScalarMaskedStore(VFromD<D> v, MFromD<D> m, D d,
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   _mm_mask_storeu_epi8(p, m.raw, v.raw);
 }
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   _mm_mask_storeu_epi16(reinterpret_cast<uint16_t*>(p), RebindMask(du, m).raw,
                         BitCast(du, v).raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   auto pi = reinterpret_cast<int*>(p);  // NOLINT
   _mm_mask_storeu_epi32(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   auto pi = reinterpret_cast<long long*>(p);  // NOLINT
   _mm_mask_storeu_epi64(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, float* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          float* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   _mm_mask_storeu_ps(p, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, double* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          double* HWY_RESTRICT p) {
+  m = detail::ZeroUpperMaskLanes(d, m);
   _mm_mask_storeu_pd(p, m.raw, v.raw);
 }
 
-- 
2.43.0


From 6c81c863021c4d67cee48d5e88268bba97166862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 04/29] fix: partial-vector GatherOffset/GatherIndex do not
 read at unspecified upper indices

---
 hwy/ops/x86_128-inl.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index a61fd29..7c63d45 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -6283,18 +6283,35 @@ HWY_INLINE Vec128<double, N> NativeMaskedGatherOr128(
 
 }  // namespace detail
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16)>
+template <class D, HWY_IF_V_SIZE_D(D, 16)>
 HWY_API VFromD<D> GatherOffset(D /*d*/, const TFromD<D>* HWY_RESTRICT base,
                                VFromD<RebindToSigned<D>> offsets) {
   return detail::NativeGather128<1>(base, offsets);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), typename T = TFromD<D>>
+// For partial vectors, mask the upper lanes, whose offsets are unspecified, to
+// prevent faults.
+template <class D, HWY_IF_V_SIZE_LE_D(D, 8)>
+HWY_API VFromD<D> GatherOffset(D d, const TFromD<D>* HWY_RESTRICT base,
+                               VFromD<RebindToSigned<D>> offsets) {
+  return detail::NativeMaskedGatherOr128<1>(Zero(d), FirstN(d, Lanes(d)), base,
+                                            offsets);
+}
+
+template <class D, HWY_IF_V_SIZE_D(D, 16), typename T = TFromD<D>>
 HWY_API VFromD<D> GatherIndex(D /*d*/, const T* HWY_RESTRICT base,
                               VFromD<RebindToSigned<D>> indices) {
   return detail::NativeGather128<sizeof(T)>(base, indices);
 }
 
+// As above: partial vector, hence mask the upper lanes.
+template <class D, HWY_IF_V_SIZE_LE_D(D, 8), typename T = TFromD<D>>
+HWY_API VFromD<D> GatherIndex(D d, const T* HWY_RESTRICT base,
+                              VFromD<RebindToSigned<D>> indices) {
+  return detail::NativeMaskedGatherOr128<sizeof(T)>(
+      Zero(d), FirstN(d, Lanes(d)), base, indices);
+}
+
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), typename T = TFromD<D>>
 HWY_API VFromD<D> MaskedGatherIndexOr(VFromD<D> no, MFromD<D> m, D d,
                                       const T* HWY_RESTRICT base,
-- 
2.43.0


From 5b50226965f348b538f0194da938d4822945e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 05/29] fix: scalar MaskedGatherIndex[Or] does not read if the
 mask is false

---
 hwy/ops/scalar-inl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..f49a135 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1281,16 +1281,14 @@ HWY_API Vec1<T> GatherIndex(D d, const T* HWY_RESTRICT base,
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedGatherIndex(Mask1<T> m, D d, const T* HWY_RESTRICT base,
                                   Vec1<MakeSigned<T>> index) {
-  HWY_DASSERT(index.raw >= 0);
-  return MaskedLoad(m, d, base + index.raw);
+  return m.bits ? GatherIndex(d, base, index) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedGatherIndexOr(Vec1<T> no, Mask1<T> m, D d,
                                     const T* HWY_RESTRICT base,
                                     Vec1<MakeSigned<T>> index) {
-  HWY_DASSERT(index.raw >= 0);
-  return MaskedLoadOr(no, m, d, base + index.raw);
+  return m.bits ? GatherIndex(d, base, index) : no;
 }
 
 // ================================================== CONVERT
-- 
2.43.0


From f0e7a89cd5cabfed854b4184f3dc2feebd6f0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 06/29] fix: x86 float operator!= returns true if either lane
 is NaN

AVX2 and AVX-512 used the ordered comparison, unlike all other targets.
---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 7c63d45..3df1e55 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..10884f7 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From 15a45e31d4c528f3bb92b13eb174c6f2a62ab395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 07/29] fix: VectorXoshiro does not write past the end of the
 result array

---
 hwy/contrib/random/random-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..f7930a3 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,8 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i,
+             static_cast<std::size_t>(n - i));
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +229,8 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i,
+             static_cast<std::size_t>(N - i));
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +271,8 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i,
+             static_cast<std::size_t>(n - i));
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +299,8 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i,
+             static_cast<std::size_t>(N - i));
     }
 
     Store(s0, tag, state_[{0}].data());
-- 
2.43.0


From 48d6dc86e58b81c5e2231c0ec8533d9583d6d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 08/29] fix: topology File::Read leaves space for the
 terminator

With 200 or more bytes of input, buf200[200] was written.
---
 hwy/contrib/thread_pool/topology.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..47a0792 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -401,7 +401,8 @@ class File {
     size_t pos = 0;
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
+      // Leave space for the null terminator.
+      const auto bytes_read = read(fd_, buf200 + pos, 199 - pos);
       if (bytes_read == 0) {  // EOF: done
         buf200[pos++] = '\0';
         return pos;
@@ -414,7 +415,7 @@ class File {
         return 0;
       }
       pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      HWY_ASSERT(pos < 200);
     }
   }
 
-- 
2.43.0


From 91aafe0678e3e1ef91d5fe5de7d63863214a8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 09/29] fix: topology File closes every open descriptor exactly
 once

Descriptor 0 is valid and was leaked; retrying close() after EINTR could
close a descriptor opened by another thread.
---
 hwy/contrib/thread_pool/topology.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 47a0792..c9dcbe8 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -371,7 +371,7 @@ class File {
   explicit File(const char* path) {
     for (;;) {
       fd_ = open(path, O_RDONLY);
-      if (fd_ > 0) return;           // success
+      if (fd_ >= 0) return;           // success
       if (errno == EINTR) continue;  // signal: retry
       if (errno == ENOENT) return;   // not found, give up
       if (HWY_IS_DEBUG_BUILD) {
@@ -382,15 +382,12 @@ class File {
   }
 
   ~File() {
-    if (fd_ > 0) {
-      for (;;) {
-        const int ret = close(fd_);
-        if (ret == 0) break;           // success
-        if (errno == EINTR) continue;  // signal: retry
-        if (HWY_IS_DEBUG_BUILD) {
-          HWY_WARN("Unexpected error closing file: %d\n", errno);
-        }
-        return;  // unknown error, ignore
+    if (fd_ >= 0) {
+      // Do not retry upon EINTR: on Linux, the descriptor is already closed and
+      // may have been reused by another thread.
+      const int ret = close(fd_);
+      if (ret != 0 && HWY_IS_DEBUG_BUILD) {
+        HWY_WARN("Unexpected error closing file: %d\n", errno);
       }
     }
   }
-- 
2.43.0


From c52483def14f98570c67d2891f1500d19818c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 10/29] fix: topology ParseDigits detects missing digits if not
 at the start

---
 hwy/contrib/thread_pool/topology.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index c9dcbe8..4f448df 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -436,6 +436,7 @@ size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
   // 9 digits cannot overflow even 32-bit size_t.
+  const size_t begin = pos;
   const size_t stop = pos + 9;
   *out = 0;
   for (; pos < HWY_MIN(end, stop); ++pos) {
@@ -444,7 +445,7 @@ bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
     *out *= 10;
     *out += static_cast<size_t>(c - '0');
   }
-  if (pos == 0) {  // No digits found
+  if (pos == begin) {  // No digits found
     *out = 0;
     return false;
   }
-- 
2.43.0


From 0273df82a300a30b6f4b8df7930985637a56301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 11/29] fix: GetThreadAffinity clears lps on Linux/FreeBSD

As documented, and as on Windows, it sets lps rather than adding to it.
---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 4f448df..7bb1df3 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From 9644d888c663891112fac50e965cd9e821284586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 12/29] fix: clear AVX10.2 target bits if the OS does not
 enable ZMM state

---
 hwy/targets.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..e4bdcc1 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -405,7 +405,7 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    constexpr int64_t min_avx3 = HWY_AVX3 | (HWY_AVX3 - 1);
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From 6c661d3c189c8e353dd9949f54900eaa471a2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 13/29] fix: ImageBase checks that the image size does not
 overflow size_t

---
 hwy/contrib/image/image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 75f6528..9ee29c2 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -73,6 +73,7 @@ ImageBase::ImageBase(const size_t xsize, const size_t ysize,
   // if nonzero, because "zero" bytes still have padding/bookkeeping overhead.
   if (xsize != 0 && ysize != 0) {
     bytes_per_row_ = BytesPerRow(xsize, sizeof_t);
+    HWY_ASSERT(ysize <= ~size_t{0} / bytes_per_row_);  // no overflow
     bytes_ = AllocateAligned<uint8_t>(bytes_per_row_ * ysize);
     HWY_ASSERT(bytes_.get() != nullptr);
     InitializePadding(sizeof_t, Padding::kRoundUp);
-- 
2.43.0


From cc4b3944fca6f3f5aeec98647ed3a922794e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 14/29] fix: AVX2 ZeroIfNegative of integers does not depend on
 bits other than the sign

---
 hwy/ops/x86_256-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 10884f7..d350cad 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1179,9 +1179,10 @@ HWY_API Vec256<T> IfThenZeroElse(Mask256<T> mask, Vec256<T> no) {
   return AndNot(VecFromMask(d, mask), no);
 }
 
-template <typename T>
+// Integers and float16 use the generic implementation: their IfThenElse looks at
+// every byte of the mask.
+template <typename T, HWY_IF_FLOAT3264(T)>
 HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
-  static_assert(IsSigned<T>(), "Only for float");
   const DFromV<decltype(v)> d;
   const auto zero = Zero(d);
   // AVX2 IfThenElse only looks at the MSB for 32/64-bit lanes
-- 
2.43.0


From 4514c13a385c916b9f43f12bc9f848ada55a5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 15/29] fix: AVX3 partial-vector CompressStore/LoadExpand do
 not access memory past Lanes(d)

---
 hwy/ops/x86_128-inl.h  |  2 ++
 hwy/ops/x86_avx3-inl.h | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3df1e55..a5c0467 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -13492,6 +13492,7 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16),
 HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
                              const TFromD<D>* HWY_RESTRICT unaligned) {
 #if HWY_TARGET <= HWY_AVX3_DL  // VBMI2
+  mask = detail::ZeroUpperMaskLanes(d, mask);
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
@@ -13507,6 +13508,7 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16),
 HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
                              const TFromD<D>* HWY_RESTRICT unaligned) {
 #if HWY_TARGET <= HWY_AVX3
+  mask = detail::ZeroUpperMaskLanes(d, mask);
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
diff --git a/hwy/ops/x86_avx3-inl.h b/hwy/ops/x86_avx3-inl.h
index 7d4a8fc..d3024c4 100644
--- a/hwy/ops/x86_avx3-inl.h
+++ b/hwy/ops/x86_avx3-inl.h
@@ -413,6 +413,11 @@ HWY_API V CompressBits(V v, const uint8_t* HWY_RESTRICT bits) {
 template <class D, HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 1) | (1 << 2))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, do not write to or count lanes past the last.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -435,6 +440,11 @@ template <class D, HWY_IF_NOT_FLOAT_D(D),
           HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 4) | (1 << 8))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, do not write to or count lanes past the last.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -453,6 +463,11 @@ HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
 template <class D, HWY_IF_FLOAT3264_D(D)>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, do not write to or count lanes past the last.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
-- 
2.43.0


From 60f98e452bbf09abe22272563abfbda6dfed2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 16/29] fix: EMU128 ShiftLeft/RightBytes of partial vectors
 allow shifting by more than the vector size

---
 hwy/ops/emu128-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..eff8496 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1596,8 +1596,10 @@ HWY_API VFromD<D> ShiftLeftBytes(D d, VFromD<D> v) {
   VFromD<D> ret;
   uint8_t* HWY_RESTRICT ret8 =
       reinterpret_cast<uint8_t * HWY_RESTRICT>(ret.raw);
-  ZeroBytes<kBytes>(ret8);
-  CopyBytes<d.MaxBytes() - kBytes>(v.raw, ret8 + kBytes);
+  // kBytes may exceed the size of a partial vector.
+  constexpr size_t kZero = HWY_MIN(static_cast<size_t>(kBytes), d.MaxBytes());
+  ZeroBytes<kZero>(ret8);
+  CopyBytes<d.MaxBytes() - kZero>(v.raw, ret8 + kZero);
   return ret;
 }
 
@@ -1628,8 +1630,10 @@ HWY_API VFromD<D> ShiftRightBytes(D d, VFromD<D> v) {
       reinterpret_cast<const uint8_t * HWY_RESTRICT>(v.raw);
   uint8_t* HWY_RESTRICT ret8 =
       reinterpret_cast<uint8_t * HWY_RESTRICT>(ret.raw);
-  CopyBytes<d.MaxBytes() - kBytes>(v8 + kBytes, ret8);
-  ZeroBytes<kBytes>(ret8 + d.MaxBytes() - kBytes);
+  // kBytes may exceed the size of a partial vector.
+  constexpr size_t kZero = HWY_MIN(static_cast<size_t>(kBytes), d.MaxBytes());
+  CopyBytes<d.MaxBytes() - kZero>(v8 + kZero, ret8);
+  ZeroBytes<kZero>(ret8 + d.MaxBytes() - kZero);
   return ret;
 }
 
-- 
2.43.0


From 91c5cecf87632e9af262d70603a5ff8cf3b4a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 17/29] fix: Pack16<11>/Pack16<13> round trip

Pack16<13>::Unpack read raw8/9/D/E from packed9/A instead of packedB/C and Pack inserted the upper bits of rawF with an incorrect mask (0xE000). Both Unpack also mixed the bits below the MSB of packed9..C into rawF. The test does not detect this because its inputs are ANDed with kBits, not its mask.
---
 hwy/contrib/bit_pack/bit_pack-inl.h | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..bd7b5ed 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,12 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Shift MSB into the top 3-of-11 and mask (only the MSB, because the bits
+    // below it belong to rawC..E).
+    const VU16 rawF =
+        Or(downF, Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                       And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                       And(ShiftRight<5>(packedA), Set(d, 0x400u))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
@@ -2120,7 +2122,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2184,21 +2186,22 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Shift MSB into the top 5-of-13 and mask (only the MSB, because the bits
+    // below it belong to rawA..E).
+    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),  //
+                         And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                         And(ShiftRight<5>(packedA), Set(d, 0x400u)));
+    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), Set(d, 0x800u)),
+                         And(ShiftRight<3>(packedC), Set(d, 0x1000u)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From a018266d4facd7b0229868aaa862e652567cbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 18/29] fix: SupportedTargets does not select disabled targets
 for dispatch

---
 hwy/targets.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e4bdcc1..5aad09b 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -790,11 +790,12 @@ HWY_DLLEXPORT int64_t SupportedTargets() {
     // heterogeneous ISA (also requires some app support to pin threads). This
     // is only reached on the first HWY_DYNAMIC_DISPATCH or after each call to
     // DisableTargets or SetSupportedTargetsForTest.
-    targets = DetectTargets();
+    targets = DetectTargets() & supported_mask_;
+    if (targets == 0) targets = HWY_STATIC_TARGET;
 
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. This must not include disabled targets because
+    // SupportedTargets may also be called without a subsequent Update().
     GetChosenTarget().Update(targets);
   }
 
-- 
2.43.0


From b6f1c08a9c9915713320be37f021bfa668a8c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 19/29] fix: require POPCNT for targets that enable SSE4.2

---
 hwy/targets.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 5aad09b..776bd03 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -170,6 +170,8 @@ enum class FeatureIndex : uint32_t {
   kAVX10,
   kAPX,
 
+  kPOPCNT,
+
   kSentinel
 };
 static_assert(static_cast<size_t>(FeatureIndex::kSentinel) < 64,
@@ -196,6 +198,7 @@ static uint64_t FlagsFromCPUID() {
   flags |= IsBitSet(abcd[2], 12) ? Bit(FeatureIndex::kFMA) : 0;
   flags |= IsBitSet(abcd[2], 19) ? Bit(FeatureIndex::kSSE41) : 0;
   flags |= IsBitSet(abcd[2], 20) ? Bit(FeatureIndex::kSSE42) : 0;
+  flags |= IsBitSet(abcd[2], 23) ? Bit(FeatureIndex::kPOPCNT) : 0;
   flags |= IsBitSet(abcd[2], 25) ? Bit(FeatureIndex::kAES) : 0;
   flags |= IsBitSet(abcd[2], 28) ? Bit(FeatureIndex::kAVX) : 0;
   flags |= IsBitSet(abcd[2], 29) ? Bit(FeatureIndex::kF16C) : 0;
@@ -244,8 +247,10 @@ static constexpr uint64_t kGroupSSE2 =
 static constexpr uint64_t kGroupSSSE3 =
     Bit(FeatureIndex::kSSE3) | Bit(FeatureIndex::kSSSE3) | kGroupSSE2;
 
+// Compilers also generate POPCNT when SSE4.2 is enabled.
 static constexpr uint64_t kGroupSSE4 =
     Bit(FeatureIndex::kSSE41) | Bit(FeatureIndex::kSSE42) |
+    Bit(FeatureIndex::kPOPCNT) |
     Bit(FeatureIndex::kCLMUL) | Bit(FeatureIndex::kAES) | kGroupSSSE3;
 
 // We normally assume BMI/BMI2/FMA are available if AVX2 is. This allows us to
-- 
2.43.0


From 399d6db0266f948394eeefdf4f00fd8e156495c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 20/29] fix: require F16C and FMA for AVX-512 targets in all
 configurations

---
 hwy/targets.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 776bd03..55c19b2 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -275,10 +275,15 @@ static constexpr uint64_t kGroupAVX2 =
     Bit(FeatureIndex::kAVX) | Bit(FeatureIndex::kAVX2) |
     Bit(FeatureIndex::kLZCNT) | kGroupBMI2_FMA | kGroupF16C | kGroupSSE4;
 
+// Clang also generates F16C and FMA when AVX512F is enabled, hence require them
+// even if HWY_DISABLE_F16C or HWY_DISABLE_BMI2_FMA are defined.
+static constexpr uint64_t kGroupAVX2_F16C_FMA =
+    Bit(FeatureIndex::kF16C) | Bit(FeatureIndex::kFMA) | kGroupAVX2;
+
 static constexpr uint64_t kGroupAVX3 =
     Bit(FeatureIndex::kAVX512F) | Bit(FeatureIndex::kAVX512VL) |
     Bit(FeatureIndex::kAVX512DQ) | Bit(FeatureIndex::kAVX512BW) |
-    Bit(FeatureIndex::kAVX512CD) | kGroupAVX2;
+    Bit(FeatureIndex::kAVX512CD) | kGroupAVX2_F16C_FMA;
 
 static constexpr uint64_t kGroupAVX3_DL =
     Bit(FeatureIndex::kVNNI) | Bit(FeatureIndex::kVPCLMULQDQ) |
@@ -295,7 +300,7 @@ static constexpr uint64_t kGroupAVX3_SPR =
 static constexpr uint64_t kGroupAVX10 =
     Bit(FeatureIndex::kAVX10) | Bit(FeatureIndex::kAPX) |
     Bit(FeatureIndex::kVPCLMULQDQ) | Bit(FeatureIndex::kVAES) |
-    Bit(FeatureIndex::kGFNI) | kGroupAVX2;
+    Bit(FeatureIndex::kGFNI) | kGroupAVX2_F16C_FMA;
 
 static int64_t DetectTargets() {
   int64_t bits = 0;  // return value of supported targets.
-- 
2.43.0


From 47a81f48012e160c00e8df05a31380b59af9a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 21/29] fix: AlignedAllocator::allocate returns null if the
 size in bytes overflows

---
 hwy/aligned_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..35df303 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -146,8 +146,12 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
+    const std::size_t items = static_cast<std::size_t>(n);
+    if (items > ~std::size_t{0} / sizeof(value_type)) {
+      return nullptr;  // overflow
+    }
     return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+        AllocateAlignedBytes(items * sizeof(value_type)));
   }
 
   template <class V>
-- 
2.43.0


From e7cfbadd8e702972769332841b8c96023aa67276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 22/29] fix: AlignedNDArray aborts if its size overflows or
 allocation fails

---
 hwy/aligned_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 35df303..811072b 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -336,8 +336,10 @@ class AlignedNDArray {
     // SIMD operations on this architecture to make sure that each innermost
     // array is aligned from the first element.
     memory_shape_[axes - 1] = RoundUpTo(memory_shape_[axes - 1], VectorBytes());
+    HWY_ASSERT(memory_shape_[axes - 1] >= shape_[axes - 1]);  // no overflow
     memory_sizes_ = ComputeSizes(memory_shape_);
     buffer_ = hwy::AllocateAligned<T>(memory_size());
+    HWY_ASSERT(buffer_ != nullptr);
     hwy::ZeroBytes(buffer_.get(), memory_size() * sizeof(T));
   }
 
@@ -420,6 +422,9 @@ class AlignedNDArray {
     sizes[axis] = 1;
     while (axis > 0) {
       --axis;
+      // Ensure the product does not overflow.
+      HWY_ASSERT(shape[axis] == 0 ||
+                 sizes[axis + 1] <= ~size_t{0} / shape[axis]);
       sizes[axis] = sizes[axis + 1] * shape[axis];
     }
     return sizes;
-- 
2.43.0


From 0d2a8baa6e9c5bed79103c8aa4770d9d8c86fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 23/29] fix: MakeUniqueAligned returns null instead of
 constructing at null

---
 hwy/aligned_allocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 811072b..98869ee 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,6 +118,7 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
+  if (ptr == nullptr) return AlignedUniquePtr<T>();
   return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
                              AlignedDeleter(free, opaque));
 }
@@ -127,6 +128,7 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
+  if (ptr == nullptr) return AlignedUniquePtr<T>();
   return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
                              AlignedDeleter());
 }
-- 
2.43.0


From 5ff1992b4004c241a17023a9e007f4d11a52ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 24/29] fix: Image aborts instead of truncating huge sizes or
 wrapping the row size

---
 hwy/contrib/image/image.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 9ee29c2..ff74789 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -34,6 +34,9 @@ size_t ImageBase::VectorSize() {
 
 size_t ImageBase::BytesPerRow(const size_t xsize, const size_t sizeof_t) {
   const size_t vec_size = VectorSize();
+  const size_t align = HWY_MAX(vec_size, HWY_ALIGNMENT);
+  // No overflow below, including padding and rounding up.
+  HWY_ASSERT(xsize <= (~size_t{0} - 3 * align) / sizeof_t);
   size_t valid_bytes = xsize * sizeof_t;
 
   // Allow unaligned accesses starting at the last valid value - this may raise
@@ -45,7 +48,6 @@ size_t ImageBase::BytesPerRow(const size_t xsize, const size_t sizeof_t) {
   }
 
   // Round up to vector and cache line size.
-  const size_t align = HWY_MAX(vec_size, HWY_ALIGNMENT);
   size_t bytes_per_row = RoundUpTo(valid_bytes, align);
 
   // During the lengthy window before writes are committed to memory, CPUs
@@ -67,6 +69,7 @@ ImageBase::ImageBase(const size_t xsize, const size_t ysize,
       ysize_(static_cast<uint32_t>(ysize)),
       bytes_(nullptr, AlignedFreer(&AlignedFreer::DoNothing, nullptr)) {
   HWY_ASSERT(sizeof_t == 1 || sizeof_t == 2 || sizeof_t == 4 || sizeof_t == 8);
+  HWY_ASSERT(xsize_ == xsize && ysize_ == ysize);  // no truncation
 
   bytes_per_row_ = 0;
   // Dimensions can be zero, e.g. for lazily-allocated images. Only allocate
@@ -87,6 +90,7 @@ ImageBase::ImageBase(const size_t xsize, const size_t ysize,
       bytes_per_row_(bytes_per_row),
       bytes_(static_cast<uint8_t*>(aligned),
              AlignedFreer(&AlignedFreer::DoNothing, nullptr)) {
+  HWY_ASSERT(xsize_ == xsize && ysize_ == ysize);  // no truncation
   const size_t vec_size = VectorSize();
   HWY_ASSERT(bytes_per_row % vec_size == 0);
   HWY_ASSERT(reinterpret_cast<uintptr_t>(aligned) % vec_size == 0);
-- 
2.43.0


From 7ccd9685db32cdaa4538558db8933a653f32425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 25/29] fix: Image3 aborts if planes have different strides

---
 hwy/contrib/image/image.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..945205a 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -224,6 +224,14 @@ class Image3 {
           static_cast<int>(plane1.xsize()), static_cast<int>(plane1.ysize()),
           static_cast<int>(plane2.xsize()), static_cast<int>(plane2.ysize()));
     }
+    // Row offsets of all planes are computed from the first plane's stride.
+    if (plane0.bytes_per_row() != plane1.bytes_per_row() ||
+        plane0.bytes_per_row() != plane2.bytes_per_row()) {
+      HWY_ABORT("Not same stride: %d, %d, %d\n",
+                static_cast<int>(plane0.bytes_per_row()),
+                static_cast<int>(plane1.bytes_per_row()),
+                static_cast<int>(plane2.bytes_per_row()));
+    }
     planes_[0] = std::move(plane0);
     planes_[1] = std::move(plane1);
     planes_[2] = std::move(plane2);
-- 
2.43.0


From afc77818d56c2eef9d2f73de43da0fb32b8e1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 26/29] fix: Image3 row accessors did not compile

---
 hwy/contrib/image/image.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 945205a..e2ae067 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -302,8 +302,7 @@ class Image3 {
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
     const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    return const_cast<void*>(HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
   }
 
  private:
-- 
2.43.0


From d44ba2ad2bdbd9d53e831cb244f5ab8148b37b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 27/29] fix: aligned allocations on Arm were not aligned to
 large SVE vectors

---
 hwy/aligned_allocator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwy/aligned_allocator.cc b/hwy/aligned_allocator.cc
index e857b22..cd1413d 100644
--- a/hwy/aligned_allocator.cc
+++ b/hwy/aligned_allocator.cc
@@ -32,6 +32,9 @@ namespace {
 // Not actually an upper bound on the size, but this value prevents crossing a
 // 4K boundary (relevant on Andes).
 constexpr size_t kAlignment = HWY_MAX(HWY_ALIGNMENT, 4096);
+#elif HWY_ARCH_ARM_A64
+// SVE vectors can be up to 2048 bits.
+constexpr size_t kAlignment = HWY_MAX(HWY_ALIGNMENT, 256);
 #else
 constexpr size_t kAlignment = HWY_ALIGNMENT;
 #endif
-- 
2.43.0


From 8916cf6d203e095e6078cf5d345596227e7b7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 28/29] fix: ThreadPool: do not mistake a leftover barrier
 count for an epoch

BarrierCounter keeps its counts in the barrier_epoch_ of the last workers.
With >= 61 threads these are also used as epochs by BarrierOrdered and
BarrierGroup. If the count left by the previous barrier equals the next epoch,
the main thread does not wait for that worker, which then runs tasks twice or
misses a wakeup.
---
 hwy/contrib/thread_pool/thread_pool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..64bfa9d 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -902,6 +902,11 @@ class MainAdapter {
 
     barrier.UntilReached(num_threads, workers, spin, epoch_);
 
+    // `BarrierCounter` shares storage with the epochs of the last worker(s).
+    // Reset it again lest a subsequent barrier of another type mistakes the
+    // leftover count for its epoch and does not wait for those workers.
+    barrier.Reset(workers);
+
     // Threads may already be waiting `UntilWoken`, which serves as the
     // 'release' phase of the barrier.
   }
-- 
2.43.0


From b2442f7528e0acc1dc0fbafc53ac8e7e54124601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 29/29] fix: GetWarnFunc/GetAbortFunc: make the returned copy
 thread-local

Concurrent callers wrote the same non-atomic function-local static.
---
 hwy/abort.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/abort.cc b/hwy/abort.cc
index a67819b..02c385a 100644
--- a/hwy/abort.cc
+++ b/hwy/abort.cc
@@ -42,15 +42,16 @@ std::string GetBaseName(std::string const& file_name) {
 // Returning a reference is unfortunately incompatible with `std::atomic`, which
 // is required to safely implement `SetWarnFunc`. As a workaround, we store a
 // copy here, update it when called, and return a reference to the copy. This
-// has the added benefit of protecting the actual pointer from modification.
+// has the added benefit of protecting the actual pointer from modification. The
+// copy is per thread because concurrent callers would otherwise both write it.
 HWY_DLLEXPORT WarnFunc& GetWarnFunc() {
-  static WarnFunc func;
+  static thread_local WarnFunc func;
   func = AtomicWarnFunc().load();
   return func;
 }
 
 HWY_DLLEXPORT AbortFunc& GetAbortFunc() {
-  static AbortFunc func;
+  static thread_local AbortFunc func;
   func = AtomicAbortFunc().load();
   return func;
 }
-- 
2.43.0

