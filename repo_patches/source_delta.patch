From e9bdfa6c6d370dea65cb0fbde0fa77d312e9a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 1/2] fix: do not read past the end of the inputs in
 keccakx4_absorb_once

For an input length that is not a multiple of 8 the last partial lane was
fetched with an 8-byte gather, reading up to 7 bytes beyond each of the four
input buffers.
---
 avx2/fips202x4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..483b081 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -45,9 +45,13 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    /* fewer than 8 bytes left: do not read beyond the end of the inputs */
+    uint64_t w[4] = {0, 0, 0, 0};
+    memcpy(&w[0], in0 + pos, inlen);
+    memcpy(&w[1], in1 + pos, inlen);
+    memcpy(&w[2], in2 + pos, inlen);
+    memcpy(&w[3], in3 + pos, inlen);
+    t = _mm256_loadu_si256((const __m256i *)w);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0


From 2c00f55d0f7e012d1b66fbe46d5b683e36784573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 2/2] fix: keep the offset of long requests in randombytes from
 overflowing

The offset into the output was an int, so a request of 2^31 bytes or more
made it overflow (undefined; without optimisation the generator then wrote
in front of the buffer).
---
 ref/nistkat/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref/nistkat/rng.c b/ref/nistkat/rng.c
index 2976969..efa2a08 100644
--- a/ref/nistkat/rng.c
+++ b/ref/nistkat/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
 
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0

