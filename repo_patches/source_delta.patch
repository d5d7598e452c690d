From 75da6ebea797d345e54f3cbe3f95a6ba87f69611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 1/6] fix: signature verification must not wrap the squared
 norm

Accumulate the squared norm in 64 bits (a long vector used to wrap to a
negative 32-bit value and pass the bound), reduce s2 modulo q before the NTT
whatever its size and normalise s1 into [-6144, 6144].
---
 include/verification.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..22778fe 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -35,7 +35,8 @@ verify(const ff::ff_t* const __restrict h,
 
   ff::ff_t s2_ntt[N];
   for (size_t i = 0; i < N; i++) {
-    s2_ntt[i].v = static_cast<uint16_t>((s2[i] < 0) * ff::Q + s2[i]);
+    const int32_t t = s2[i] % static_cast<int32_t>(ff::Q);
+    s2_ntt[i].v = static_cast<uint16_t>((t < 0) * ff::Q + t);
   }
 
   ff::ff_t c[N];
@@ -60,17 +61,17 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
   }
   for (size_t i = 0; i < N; i++) {
     sqrd_norm += normalized_s1[i] * normalized_s1[i];
-- 
2.43.0


From 5153a1a14b67f8239760b989588a8285628563e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 2/6] fix: refuse public keys with non-canonical coefficients

A 14-bit field holding 12289 or more is not the encoding of any coefficient:
it let several byte strings stand for one key and fed non-canonical values to
the field arithmetic.
---
 include/decoding.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..4586e3c 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -31,6 +31,8 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
     return false;
   }
 
+  bool canonical = true;
+
   for (size_t pkoff = 1, hoff = 0; pkoff < pklen; pkoff += 7, hoff += 4) {
     h[hoff + 0].v = (static_cast<uint16_t>(pkey[pkoff + 1] & mask6) << 8) |
                     (static_cast<uint16_t>(pkey[pkoff + 0]) << 0);
@@ -42,9 +44,17 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 3] >> 4) << 0);
     h[hoff + 3].v = (static_cast<uint16_t>(pkey[pkoff + 6]) << 6) |
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
+
+    canonical &= (h[hoff + 0].v < ff::Q) & (h[hoff + 1].v < ff::Q) &
+                 (h[hoff + 2].v < ff::Q) & (h[hoff + 3].v < ff::Q);
   }
 
-  return true;
+  // a coefficient >= q is not an encoding of any element of Z_q
+  if (!canonical) [[unlikely]] {
+    std::fill_n(h, N, 0);
+  }
+
+  return canonical;
 }
 
 // Decodes a byte encoded Falcon{512, 1024} secret key into three polynomials f,
-- 
2.43.0


From 3d353ade47c59d8a1139fa4aa960e9afda0b6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 3/6] fix: decompress long unary codes, never read past the
 signature

The branch for coefficients of magnitude 1024 and above dropped the high bits
and lost the position of the terminating 1; peeking eight bits touched up to
two bytes beyond the signature; a code ending on the very last bit was refused.
---
 include/decoding.hpp | 64 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 4586e3c..15b43ed 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -215,8 +215,8 @@ decode_skey(const uint8_t* const __restrict skey,
 // Now notice, if we're working with a byte array of length 2 and we're asked to
 // extract 8 contiguous bits, starting from bit index 11, we will access memory
 // location which we're not supposed to be. So it's caller's responsibility to
-// ensure that atleast 2 consecutive memory locations ( i.e. bytes ) can be
-// accessed, starting from byte index (bitoff / 8).
+// ensure that all 8 bits, starting from bit index `bitoff`, can be accessed. No
+// byte which doesn't hold any of those bits is ever touched.
 static inline constexpr uint8_t
 extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
                           const size_t bitoff)
@@ -224,8 +224,10 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t byte_at = bitoff >> 3;
   const size_t bit_at = bitoff & 7ul;
 
-  const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
-                        static_cast<uint16_t>(bytes[byte_at + 1]);
+  uint16_t word = static_cast<uint16_t>(bytes[byte_at]) << 8;
+  if (bit_at > 0) {
+    word |= static_cast<uint16_t>(bytes[byte_at + 1]);
+  }
 
   return static_cast<uint8_t>(word >> (8 - bit_at));
 }
@@ -292,6 +294,11 @@ decompress_sig(const uint8_t* const __restrict sig,
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
+    // a code needs atleast sign bit, low 7 bits and terminating 1 of unary code
+    if (slen - bit_idx < 9) {
+      break;
+    }
+
     // extracts sign bit and low ( least significant ) 7 bits of coefficient
     {
       const uint8_t res = extract_8_contiguous_bits(sig, bit_idx);
@@ -303,31 +310,32 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += ebits;
-
-          if (v < ebits) {
-            break;
-          }
+      int32_t k = 0;
+      while (bit_idx < slen) {
+        const size_t ebits = std::min<size_t>(8ul, slen - bit_idx);
+
+        size_t v = 0;
+        if (ebits < 8) {
+          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+          v = std::min<size_t>(std::countl_zero(t), ebits);
+        } else {
+          const auto t = extract_8_contiguous_bits(sig, bit_idx);
+          v = std::countl_zero(t);
+        }
+        k += static_cast<int32_t>(v);
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
       }
+
+      // terminating 1 of unary code is missing
+      if (bit_idx >= slen) {
+        break;
+      }
+
+      coeff += (1 << 7) * k;
     }
 
     // recompute coefficient s_i
@@ -347,7 +355,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= coeff_idx < N;
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
-- 
2.43.0


From cce2f9964c1504752740732f4af2340e6743c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 4/6] fix: accept a signature code that fills the signature
 exactly

---
 include/encoding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From 2b11edcd7c1e85ee5425a6437e63fbc8e199d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 5/6] fix: regenerate keys that secret key encoding can't hold

---
 include/ntru_gen.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..737fad9 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -517,10 +517,24 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // largest magnitude secret key encoding can hold, see encoding.hpp
+  constexpr int32_t fg_max = (N == 512) ? 31 : 15;
+  constexpr int32_t FG_max = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    // f, g must fit their fixed-width fields in encoded secret key
+    bool encodable = true;
+    for (size_t i = 0; i < N; i++) {
+      encodable &= (f[i] >= -fg_max) && (f[i] <= fg_max);
+      encodable &= (g[i] >= -fg_max) && (g[i] <= fg_max);
+    }
+    if (!encodable) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -543,6 +557,17 @@ ntru_gen(int32_t* const __restrict f,
       continue;
     }
 
+    // and so must F, G, otherwise key can't be loaded back
+    for (size_t i = 0; i < N; i++) {
+      encodable &= (ret.first.first[i] >= -FG_max);
+      encodable &= (ret.first.first[i] <= FG_max);
+      encodable &= (ret.first.second[i] >= -FG_max);
+      encodable &= (ret.first.second[i] <= FG_max);
+    }
+    if (!encodable) {
+      continue;
+    }
+
     for (size_t i = 0; i < N; i++) {
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
-- 
2.43.0


From 99d2a53d080bc163a59e848a756f5ead6e25ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 6/6] fix: bound iterations of reduce when F, G stop shrinking

---
 include/ntru_gen.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index 737fad9..f718f0a 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -3,6 +3,7 @@
 #include "polynomial.hpp"
 #include "prng.hpp"
 #include "samplerz.hpp"
+#include <limits>
 
 // Generate f, g, F, G ∈ Z[x]/(φ) | fG − gF = q mod φ ( i.e. NTRU equation )
 namespace ntru_gen {
@@ -364,6 +365,12 @@ reduce(const std::array<mpz_class, N>& f,
   fft::adj_poly<log2<N>()>(f_adjoint);
   fft::adj_poly<log2<N>()>(g_adjoint);
 
+  // when f, g ( nearly ) vanish together in their FFT representation, rounding
+  // errors can keep F, G from shrinking, in that case give up reducing them
+  constexpr size_t max_stalled = 8;
+  size_t least_blen1 = std::numeric_limits<size_t>::max();
+  size_t stalled = 0;
+
   while (1) {
     const std::pair<mpz_class, mpz_class> Fmm = min_max(F);
     const std::pair<mpz_class, mpz_class> Gmm = min_max(G);
@@ -378,6 +385,13 @@ reduce(const std::array<mpz_class, N>& f,
       break;
     }
 
+    if (blen1 < least_blen1) {
+      least_blen1 = blen1;
+      stalled = 0;
+    } else if (++stalled == max_stalled) {
+      break;
+    }
+
     fft::cmplx F_adjust[N];
     fft::cmplx G_adjust[N];
     fft::cmplx F_adjoint[N];
-- 
2.43.0

