From bb11fe1ed4bf4f190d276ecf9a1b3bf5fa5e6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 01/14] fix: don't overflow squared norm during signature
 verification

The squared norm of (s1, s2) was accumulated in int32_t, though it's ~6.4 * 10^9
for a random s1 when N = 512 ( ~12.9 * 10^9 when N = 1024 ). On overflow a
signature of some other message ( or an arbitrary one ) was accepted, e.g. 58 of
1000 unsigned messages verified against a Falcon1024 signature.
---
 include/verification.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..4fddd62 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,13 +67,16 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  // 32 -bit integers can't hold this norm, it can be as large as N * (q/2)^2,
+  // while each decompressed coefficient of s2 can have ~20 significant bits.
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * static_cast<int64_t>(s2[i]);
   }
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += normalized_s1[i] * normalized_s1[i];
+    sqrd_norm += static_cast<int64_t>(normalized_s1[i]) *
+                 static_cast<int64_t>(normalized_s1[i]);
   }
 
   return sqrd_norm <= β2;
-- 
2.43.0


From 8cb1db2727e7e65c1c3b807988d4d379f4a89325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 02/14] fix: center s1 in [-6144, 6144] during signature
 verification

Residue 6144 ( = floor(q/2) ) was mapped to -6145, so norm of (s1, s2) was
overestimated and a Falcon1024 signature at the norm bound could be rejected.
---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 4fddd62..d5eeede 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From 854e622acf3c0f768eccc5a918ce669e8171d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 03/14] fix: reject public keys having a coefficient >= q

Each coefficient is encoded using 14 -bits, those in [q, 2^14) were accepted,
ending up as non-canonical elements of Z_q, on which arithmetic isn't defined.
---
 include/decoding.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..28d21c1 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -13,8 +13,9 @@ namespace decoding {
 // https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon public key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and each 14 -bit coefficient must be < q, otherwise
+// decoding will fail, returning false. In case of successful decoding, truth
+// value is returned.
 template<const size_t N>
 static inline bool
 decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
@@ -44,6 +45,17 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
+  // coefficients must be canonical elements of Z_q
+  bool failed = false;
+  for (size_t i = 0; i < N; i++) {
+    failed |= h[i].v >= ff::Q;
+  }
+
+  if (failed) [[unlikely]] {
+    std::fill_n(h, N, 0);
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 9952ee2799ab937b7d45351d00274f7bf869cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 04/14] fix: decompress signature coefficients whose magnitude
 is >= 1024

When high bits of a coefficient were encoded as 8 or more zeros, they were never
added to the coefficient and bits following the terminating 1 were skipped, so
what compress_sig produced for such a polynomial didn't decompress.
---
 include/decoding.hpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 28d21c1..2163c5d 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -305,31 +305,27 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += ebits;
-
-          if (v < ebits) {
-            break;
-          }
+      size_t k = 0;
+      for (; bit_idx < slen;) {
+        const auto ebits = std::min(8ul, slen - bit_idx);
+
+        size_t v = 0;
+        if (ebits < 8) {
+          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+          v = std::min<size_t>(std::countl_zero(t), ebits);
+        } else {
+          const auto t = extract_8_contiguous_bits(sig, bit_idx);
+          v = std::countl_zero(t);
+        }
+        k += v;
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
       }
+
+      coeff += (1 << 7) * k;
     }
 
     // recompute coefficient s_i
-- 
2.43.0


From 103158bf959a471ddc83c13a067d24cbef9d9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 05/14] fix: don't read past end of the signature during
 decompression

Two bytes following the signature were read when a malformed signature runs out
of bits in the middle of a coefficient. One byte was read even for valid
signatures whose zero padding is a multiple of 8 bits long.
---
 include/decoding.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2163c5d..8f7ef6f 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -226,8 +226,10 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t byte_at = bitoff >> 3;
   const size_t bit_at = bitoff & 7ul;
 
+  // when starting at byte boundary, next byte must not be touched
+  const uint8_t next = bit_at > 0 ? bytes[byte_at + 1] : 0;
   const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
-                        static_cast<uint16_t>(bytes[byte_at + 1]);
+                        static_cast<uint16_t>(next);
 
   return static_cast<uint8_t>(word >> (8 - bit_at));
 }
@@ -290,7 +292,8 @@ decompress_sig(const uint8_t* const __restrict sig,
   size_t coeff_idx = 0;
   bool failed = false;
 
-  while ((coeff_idx < N) && (bit_idx < slen)) {
+  // each coefficient takes at least 9 bits
+  while ((coeff_idx < N) && (bit_idx + 8 < slen)) {
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
-- 
2.43.0


From 348556cdb1b6c49f7be13c4e546a113b6108329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 06/14] fix: (de)compress signatures which use all the
 available bits

Algorithm 17 fails only if more than slen -bits are needed. A signature of
another implementation, which happens to have no padding, was rejected.
---
 include/decoding.hpp | 2 +-
 include/encoding.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 8f7ef6f..03a3cfd 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -348,7 +348,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= (bit_idx > slen) | (coeff_idx < N);
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From f6525a51cd1a141f41bfb03c9f95b31d473910f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 07/14] fix: don't write past end of the buffer during
 signature compression

A polynomial which doesn't fit in max_sbytelen -bytes corrupted the stack,
instead of denoting compression failure.
---
 include/encoding.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 361ccf7..f509887 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -182,6 +182,15 @@ compress_sig(const int32_t* const __restrict poly_s,
   size_t coeff_idx = 0;
 
   while (coeff_idx < N) {
+    const int64_t scoeff = poly_s[coeff_idx];
+    const size_t need = 1 + 7 + (static_cast<size_t>(std::abs(scoeff)) >> 7) + 1;
+
+    // stop before writing past end of the buffer
+    if (bit_idx + need > slen) {
+      bit_idx = slen + 1;
+      break;
+    }
+
     // encode sign bit
     {
       const size_t byte_idx = bit_idx >> 3;
-- 
2.43.0


From 634f2157f5a2551c99d9f310c0bfd49793d95bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 08/14] fix: retry key generation if f, g or F can't be encoded

Coefficients out of the range, which section 3.11.5 of the specification can
encode, were silently truncated, producing a secret key which doesn't match the
public key.
---
 include/ntru_gen.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..0e96d54 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -504,6 +504,18 @@ ntru_solve(const std::array<mpz_class, N>& f, const std::array<mpz_class, N>& g)
   }
 }
 
+// Checks whether all coefficients of a polynomial ∈ [-max, max].
+template<const size_t N, typename T>
+static inline bool
+is_bounded(const T& poly, const int32_t max)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -max) && (poly[i] <= max);
+  }
+  return flg;
+}
+
 // Given a modulus q ( = 12289 ), this routine generates four polynomials f, g,
 // F, G ∈ Z[x]/(x^N + 1), solving NTRU equation ( see eq 3.15 of Falcon
 // specification ). This routine is an implementation of algorithm 5 of Falcon
@@ -517,10 +529,19 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // Polynomials are retried, if these can't be encoded as secret key, see
+  // section 3.11.5 of Falcon specification.
+  constexpr int32_t fg_max = N == 512 ? 31 : 15;
+  constexpr int32_t F_max = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    if (!is_bounded<N>(f, fg_max) || !is_bounded<N>(g, fg_max)) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -543,6 +564,10 @@ ntru_gen(int32_t* const __restrict f,
       continue;
     }
 
+    if (!is_bounded<N>(ret.first.first, F_max)) {
+      continue;
+    }
+
     for (size_t i = 0; i < N; i++) {
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
-- 
2.43.0


From 0bbac48ddcbda15e4309f3db6bc37d3208f77d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 09/14] fix: terminate reduction of (F, G) when quotient has a
 coefficient of 1/2

std::round() rounds half away from zero, so that reducing 1/2 leaves -1/2 and
vice versa: NTRUSolve never returned, e.g. for f = -x, g = -x in Z[x]/(x^2 + 1).
Value of such a coefficient is inexact, hence some tolerance.
---
 include/ntru_gen.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index 0e96d54..0570606 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -420,7 +420,10 @@ reduce(const std::array<mpz_class, N>& f,
 
     signed long k_rounded[N];
     for (size_t i = 0; i < N; i++) {
-      k_rounded[i] = static_cast<signed long>(std::round(k[i].real()));
+      // reducing ±1/2 would just flip its sign, never terminating
+      const bool is_tie = std::abs(k[i].real()) < 0.5 + 0x1p-10;
+      const double rounded = is_tie ? 0. : std::round(k[i].real());
+      k_rounded[i] = static_cast<signed long>(rounded);
     }
 
     bool atleast_one_nonzero = false;
-- 
2.43.0


From f9784aa3c036022dda2aecdaf49564ac96686f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 10/14] fix: seed PRNG with 256 bits of system randomness

All 32 bytes of the seed were expanded from a single 32 -bit word, so there were
only 2^32 different keypairs ( and salts ) to be searched through.
---
 include/prng.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..226770e 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -7,8 +7,7 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +22,10 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
     for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+      seed[i] = static_cast<uint8_t>(rd());
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From a09e89180c7b22426db51992e78e08328b4b83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 11/14] fix: don't convert a negative remainder to unsigned
 integer in BerExp

x * INV_LN2 can be rounded up to an integer, e.g. when x = 15 * LN2, in which
case remainder was ~ -2^-53 and approx_exp() returned garbage.
---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..8525774 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -250,7 +250,7 @@ static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -287,7 +287,7 @@ ber_exp(const double x,
         const size_t rblen)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0


From dc2cbe3116a3673c579d5929a1fab7d762fddd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 12/14] fix: don't read past end of the random bytes given to
 SamplerZ

When given byte array runs out in the middle of an iteration, at most 10 bytes
following it were read.
---
 include/samplerz.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index 8525774..9fc4780 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -374,7 +374,8 @@ samplerz(const double μ,
   size_t ridx = 0;
   int32_t ret_z = 0;
 
-  while (ridx < rblen) {
+  // each iteration consumes at least 9 + 1 + 1 bytes
+  while (ridx + 11 <= rblen) {
     std::array<uint8_t, 9> tmp{};
     std::memcpy(tmp.data(), rbytes + ridx, 9);
     std::reverse(tmp.begin(), tmp.end());
-- 
2.43.0


From c8125334bd0a02639c56ad5125231b7066f03fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 13/14] fix: ber_exp treats an exponent rounded below zero as
 zero

With sigma' = sigma_max and an integer centre, x = t4 - t6 can come out as
-8e-16 (fused multiply-subtract); floor gave -1 and its conversion to
uint64_t is undefined, turning certain acceptance into certain rejection.
---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index 9fc4780..c244c9e 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -249,7 +249,7 @@ approx_exp(const double x, const double ccs)
 static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
-  const double s = std::floor(x * INV_LN2);
+  const double s = std::max(std::floor(x * INV_LN2), 0.);
   const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
@@ -286,7 +286,7 @@ ber_exp(const double x,
         const uint8_t* const rbytes,
         const size_t rblen)
 {
-  const double s = std::floor(x * INV_LN2);
+  const double s = std::max(std::floor(x * INV_LN2), 0.);
   const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
-- 
2.43.0


From 92f70c4a32fa9a3de8c7d9b0b791fba4772b82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 14/14] fix: signing refuses secret keys which are not a short
 basis

Signing with a stored secret key of valid header but arbitrary body divided by
zero, converted NaN/ infinity to integer ( undefined behaviour ) and sampled
forever.
---
 include/falcon.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/falcon.hpp b/include/falcon.hpp
index 2bdd7c0..50aa0e4 100644
--- a/include/falcon.hpp
+++ b/include/falcon.hpp
@@ -50,8 +50,11 @@ keygen(uint8_t* const __restrict pkey, uint8_t* const __restrict skey)
 // byte encapsulated value of polynomials f, g and F ) and G needs to be
 // computed again because all of four polynomials f, g, F and G are required for
 // computing Falcon Tree T, which is used for signing messages.
+//
+// Returns boolean truth value, if f, g, F can be completed to a solution of NTRU
+// equation, otherwise false.
 template<const size_t N>
-static inline void
+static inline bool
 recompute_G(const int32_t* const __restrict f,
             const int32_t* const __restrict g,
             const int32_t* const __restrict F,
@@ -84,9 +87,18 @@ recompute_G(const int32_t* const __restrict f,
 
   fft::ifft<log2<N>()>(G_);
 
+  // G must be integral, also catches division by zero i.e. NaN/ infinity
+  bool flg = true;
   for (size_t i = 0; i < N; i++) {
-    G[i] = static_cast<int32_t>(std::round(G_[i].real()));
+    const double rounded = std::round(G_[i].real());
+    const bool ok = (std::abs(rounded) <= 0x1p30) &&
+                    (std::abs(G_[i].real() - rounded) <= 0x1p-16);
+
+    G[i] = ok ? static_cast<int32_t>(rounded) : 0;
+    flg &= ok;
   }
+
+  return flg;
 }
 
 // Given four degree N polynomials f, g, F and G, in coefficient form, this
@@ -207,7 +219,14 @@ sign(const uint8_t* const __restrict skey,
     return decoded;
   }
 
-  recompute_G<N>(f, g, F, G);
+  // Secret key, which isn't a short basis, can't be used for signing
+  const double gsnorm = ntru_gen::gram_schmidt_norm<log2<N>()>(f, g);
+  const bool valid = (gsnorm <= ntru_gen::GS_NORM_THRESHOLD) &&
+                     recompute_G<N>(f, g, F, G);
+  if (!valid) [[unlikely]] {
+    return valid;
+  }
+
   compute_matrix_B<N>(f, g, F, G, B);
   compute_falcon_tree<N>(B, T);
   sign<N>(B, T, msg, mlen, sig, rng);
-- 
2.43.0

