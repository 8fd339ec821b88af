From 2df6f267daf8b03abcf9797cd39f3658e2e4ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 1/2] fix: align rho8/rho56 for the aligned 32-byte loads that
 read them

---
 avx2/keccak4x/KeccakP-1600-times4-SIMD256.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c b/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
index 54c4a1e..9702406 100644
--- a/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
+++ b/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
@@ -46,8 +46,8 @@ typedef __m256i V256;
     #define ROL64in256(d, a, o)     d = _mm256_or_si256(_mm256_slli_epi64(a, o), _mm256_srli_epi64(a, 64-(o)))
     #define ROL64in256_8(d, a)      d = _mm256_shuffle_epi8(a, CONST256(rho8))
     #define ROL64in256_56(d, a)     d = _mm256_shuffle_epi8(a, CONST256(rho56))
-static const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
-static const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
     #define STORE256(a, b)          _mm256_store_si256((V256 *)&(a), b)
     #define STORE256u(a, b)         _mm256_storeu_si256((V256 *)&(a), b)
     #define STORE2_128(ah, al, v)   _mm256_storeu2_m128d((V128*)&(ah), (V128*)&(al), v)
-- 
2.43.0


From 649abeb8c860fd160d7fdb3fef90bc26a6291e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 2/2] fix: keccakx4_absorb_once reads past inputs whose length
 is no multiple of 8

---
 avx2/fips202x4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..ae26fd4 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -45,9 +45,13 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    /* fewer than 8 bytes left; a gather would read beyond the inputs */
+    uint64_t tail[4] = {0};
+    memcpy(&tail[0], in0 + pos, inlen);
+    memcpy(&tail[1], in1 + pos, inlen);
+    memcpy(&tail[2], in2 + pos, inlen);
+    memcpy(&tail[3], in3 + pos, inlen);
+    t = _mm256_loadu_si256((__m256i *)tail);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0

