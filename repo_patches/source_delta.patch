From 678f104b3c79505abc77f1cb34173544b28d0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 01/33] fix: access the SHA-3 state and messages through
 aliasing-safe word types

KeccakF2 reads and writes the byte array of hashState through a uint64_t
pointer; with strict aliasing (-O2 and above) gcc reorders these accesses with
the byte-wise ones of Update/Final, so that SHA-3, streaming SHAKE and Ed448
signatures come out wrong.
---
 third_party/sha3.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..597120e 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,12 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* The state and the messages are byte strings: words that may alias them, and
+ * that are not necessarily aligned in the case of messages. */
+typedef uint64_t __attribute__ ((may_alias)) state_word;
+typedef uint64_t __attribute__ ((may_alias, aligned (1))) byte_word;
+
+static void KeccakF2(state_word *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +404,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((state_word *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +434,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((state_word *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +452,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((state_word *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((state_word *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +511,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const byte_word *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +523,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const byte_word *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +532,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +560,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const byte_word *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +572,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const byte_word *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +581,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From daf2066b821e52c9cb54e1e0827aa4843a2e12cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 02/33] fix: align the constant vectors read with 32-byte loads

---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..e36ad32 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -438,7 +438,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	const ALIGN uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..c95d4ab 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -218,7 +218,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..934ed86 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -257,7 +257,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From b81e6505201230cc867958cf1fd1431dde73df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 03/33] fix: write only the digest, not the whole rate, when
 finishing SHA-3

---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 597120e..4f191be 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -436,7 +436,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((state_word *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From aade954b07dde1f5f812a48a9c17c54222798617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 04/33] fix: complete or abort random requests instead of
 returning unfilled buffers

---
 third_party/prng.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..f34fdc0 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,24 +9,33 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
-  int c, fd = open("/dev/urandom", O_RDONLY);
+  ssize_t c;
+  int fd;
+
+  do {
+    fd = open("/dev/urandom", O_RDONLY);
+  } while (fd == -1 && errno == EINTR);
 
   if (fd == -1) {
-    printf("Error opening /dev/urandom\n");
+    fprintf(stderr, "Error opening /dev/urandom\n");
+    abort();
   }
 
-  l = 0;
-  do {
+  while (l < num_bytes) {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
-      printf("Error reading /dev/urandom\n");
+    if (c > 0) {
+      l += (size_t) c;
+    } else if (c == 0 || errno != EINTR) {
+      /* never go on with a buffer that is not random */
+      fprintf(stderr, "Error reading /dev/urandom\n");
+      abort();
     }
-  } while (l < num_bytes);
+  }
 
   close(fd);
 }
-- 
2.43.0


From c9088eda1ee22fc5131b405bb75cd1093b409d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 05/33] fix: keep every carry when multiplying scalars

---
 src/bytestring.c | 23 +++++++++++++++++------
 src/edwards448.c | 10 +++++-----
 src/sign255.c    |  2 +-
 src/sign448.c    |  2 +-
 4 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..f090dfa 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,32 +65,43 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Computes C = C + A*B, the value of C must fit in numC words.
  *
  * @param C
+ * @param numC
  * @param A
  * @param numA
  * @param B
  * @param numB
  */
 static inline void word64_multiplier(
-    uint64_t *C,
+    uint64_t *C, const int numC,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
+  uint64_t carry;
+/* (carry:Z) = Z + carry + X*Y, which always fits in two words */
 #define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+            "movq 0(%2), %%rax     ;"\
+            "mulq 0(%3)            ;"\
+            "addq %1,    %%rax     ;"\
+            "adcq $0x0,  %%rdx     ;"\
             "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0,  %%rdx     ;"\
+            "movq %%rdx, %1        ;"\
+    :/* out  */ "+r" (*(Z)),"+r" (carry)\
     :/* in   */ "r" (X),"r" (Y)\
     :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
+    carry = 0;
     for (j = 0; j < numB; j++) {
       mul64x64(C + i + j, A + i, B + j);
     }
+    for (j = i + numB; j < numC; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
+    }
   }
 #undef mul64x64
 }
diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..cbcc954 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -57,23 +57,23 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		product[i] = 0;
 	}
 
-	word64_multiplier(product,ellx4,4,high,8);
+	word64_multiplier(product,13,ellx4,4,high,8);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,8,ellx4,4,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,8,ellx4,4,high,1);
 
 	high[0] = product[6]>>62;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,8,ell,4,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
@@ -108,7 +108,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 	{
 		((uint8_t*)a)[i] = number[i];
 	}
-	word64_multiplier(product,ifour,7,a,7);
+	word64_multiplier(product,14,ifour,7,a,7);
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..7a3e1ff 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -251,7 +251,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
     product[i] = ((uint64_t *) r)[i];
   }
 
-  word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
+  word64_multiplier(product, 8, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
   for (i = 0; i < 4; i++) {
     ((uint64_t *) s_mod_l)[i] = product[i];
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..4705837 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -85,7 +85,7 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
     product[i] = 0;
   }
 
-  word64_multiplier(product, hh, 7, aa, 7);
+  word64_multiplier(product, 14, hh, 7, aa, 7);
   modular_reduction_ed448((uint8_t *) product);
 
   for (i = 0; i < 56; i++) {
-- 
2.43.0


From 01093cb299871e36764925dc6484655492f81d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 06/33] fix: reduce scalars modulo the group order also when
 the last step borrows

---
 src/sign255.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index 7a3e1ff..b95fca5 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -207,6 +207,20 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  /* if negative, adds \ell = 2^252 + ell */
+  "movq    %%r9,  %%rdx  \n\t"
+  "sarq    $63,   %%rdx  \n\t"
+  "movq    0(%1), %%rax  \n\t"
+  "andq    %%rdx, %%rax  \n\t"
+  "movq    8(%1), %%r10  \n\t"
+  "andq    %%rdx, %%r10  \n\t"
+  "shrq    $63,   %%rdx  \n\t"
+  "shlq    $60,   %%rdx  \n\t"
+  "addq    %%rax, %%rbx  \n\t"
+  "adcq    %%r10, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%rdx,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
-- 
2.43.0


From d8440de1cccb975b040ae06d1e39d277e05ad6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 07/33] fix: compare every bit of GF(2^255-19) elements in
 reduced radix

---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..12faa84 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -434,7 +434,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From 043f27d69111a2253edbf79f923624413e73587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 08/33] fix: negate all four elements in the 4-way GF(2^255-19)
 table

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From 5e848528375e67f36c2ab3c19415ad2d5acd851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 09/33] fix: place the modulus 2^448-2^224-1 in the digit order
 of the reduced radix

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..e783150 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -756,14 +756,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From 97b072c34c845887362d39c00c08274882c49913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 10/33] fix: address the second operand of the double
 GF(2^448-2^224-1) operations in words

---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 3f2152a625fa2d4da0ef4db4fc3a70e5e785d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 11/33] fix: declare that mula24 reads and writes memory

---
 src/eltfp448_1w_fullradix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..3980c93 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1178,8 +1178,8 @@ DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
@@ -1225,8 +1225,8 @@ DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 38f50c87575b6ede09708089c00347c8836fd0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 12/33] fix: compute square roots modulo 2^255-19 in each
 element and without clobbering the operand

---
 src/eltfp25519_1w_fullradix.c |  4 +++-
 src/eltfp25519_1w_redradix.c  |  4 +++-
 src/eltfp25519_4w_redradix.c  | 15 +++++++++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..c00e777 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1516,7 +1516,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_fullradix u;
+  FN(copy)(u, c); /* invsqrt negates its second operand */
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 12faa84..d228058 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -801,7 +801,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_redradix u;
+  FN(copy)(u, c); /* invsqrt negates its second operand */
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index c95d4ab..8273638 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -814,6 +814,8 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   };
   EltFp25519_4w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
   argElement_4w Tab[4];
+  __m256i mask;
+  int i;
 
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
@@ -883,13 +885,18 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(mul)(uv, uv3, v); /* v*B^2 */
   FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  /* multiplies by √-1 only the elements that need it */
+  mask = _mm256_cmpeq_epi64(FN(cmp)(uv, u), ZERO);
+  FN(mul)(uv, uv_p38, sqrt_minus_one);/* (√-1)*B */
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = _mm256_blendv_epi8(uv_p38[i], uv[i], mask);
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_4w_redradix u;
+  FN(copy)(u, c); /* invsqrt negates its second operand */
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From dee8e5c2ffdb01f444fdc01dbc29d5ae5705bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 13/33] fix: allow inverses and square roots in place

---
 src/eltfp25519_1w_fullradix.c | 5 +++--
 src/eltfp25519_1w_redradix.c  | 5 +++--
 src/eltfp448_1w_fullradix.c   | 5 +++--
 src/eltfp448_1w_redradix.c    | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index c00e777..29781bb 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1378,7 +1378,7 @@ DECL(void, sqr)(argElement_1w a) {
   }
 
 DECL(void, inv)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_fullradix x0, x1, x2;
+  EltFp25519_1w_fullradix x0, x1, x2, x;
   argElement_1w T[5];
   int counter ;
 
@@ -1386,8 +1386,9 @@ DECL(void, inv)(argElement_1w c, argElement_1w a) {
   T[1] = c; /* x^(-1) */
   T[2] = x1;
   T[3] = x2;
-  T[4] = a; /* x */
+  T[4] = x; /* x */
 
+  FN(copy)(x, a); /* c and a can be the same element */
   FN(copy)(T[1], T[4]);
   sqrn_Fp255_1w_fullradix(T[1], 1);
   FN(copy)(T[2], T[1]);
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index d228058..b0f32bc 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -664,15 +664,16 @@ DECL(void, copy)(argElement_1w c, argElement_1w a) {
 }
 
 DECL(void, inv)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_redradix x0, x1, x2;
+  EltFp25519_1w_redradix x0, x1, x2, x;
   argElement_1w T[5];
 
   T[0] = x0;
   T[1] = c; /* x^(-1) */
   T[2] = x1;
   T[3] = x2;
-  T[4] = a; /* x */
+  T[4] = x; /* x */
 
+  FN(copy)(x, a); /* c and a can be the same element */
   FN(copy)(T[1], T[4]);
   FN(sqrn)(T[1], 1);
   FN(copy)(T[2], T[1]);
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 3980c93..353c1db 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1078,14 +1078,15 @@ DECL(void, sqrn)(argElement_1w a, unsigned int times) {
 }
 
 DECL(void, invsqrt)(argElement_1w c, argElement_1w a, const int only_inverse) {
-  EltFp448_1w_fullradix x0, x1;
+  EltFp448_1w_fullradix x0, x1, x;
   argElement_1w T[4];
 
   T[0] = x0;
   T[1] = c;
   T[2] = x1;
-  T[3] = a;
+  T[3] = x;
 
+  FN(copy)(x, a); /* c and a can be the same element */
   FN(copy)(T[1], T[3]);
   FN(sqrn)(T[1], 1);
   FN(mul)(T[1], T[1], T[3]);
diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index e783150..46fcf0b 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -671,14 +671,15 @@ DECL(void, copy)(argElement_1w c, argElement_1w a) {
 }
 
 DECL(void, invsqrt)(argElement_1w c, argElement_1w a, const int only_inverse) {
-  EltFp448_1w_redradix x0, x1;
+  EltFp448_1w_redradix x0, x1, x;
   argElement_1w T[4];
 
   T[0] = x0;
   T[1] = c;
   T[2] = x1;
-  T[3] = a;
+  T[3] = x;
 
+  FN(copy)(x, a); /* c and a can be the same element */
   FN(copy)(T[1], T[3]);
   FN(sqrn)(T[1], 1);
   FN(mul)(T[1], T[1], T[3]);
-- 
2.43.0


From 74c7d4a73ae2250c80b87fe29d085572f864c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 14/33] fix: reject Ed25519 public keys that are not the
 encoding of a point

---
 src/edwards255.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index e36ad32..6e15067 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1094,6 +1094,7 @@ static inline int point_decoding_ed25519(
   };
   EltFp25519_1w_fullradix X, Y, T, u, v;
   EltFp25519_1w_fullradix one = {0};
+  EltFp25519_1w_fullradix vx2;
   uint8_t bit_X;
 
   one[0] = 1;
@@ -1102,6 +1103,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  modp_Fp255_1w_fullradix(Y);
+  if (cmp_bytes((uint8_t *) Y, (uint8_t *) u, SIZE_FP25519) != 0) {
+    /* y is not reduced modulo p */
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1111,11 +1117,26 @@ static inline int point_decoding_ed25519(
   /*  v = dy^2+1 */
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
-  invsqrt_Fp255_1w_fullradix(X, u, v);
+  Fp25519._1w_full.arith.misc.copy(vx2, u);
+  invsqrt_Fp255_1w_fullradix(X, vx2, v);
+  /*  Checking whether
+   *      v*x^2 == u
+   */
+  Fp25519._1w_full.arith.misc.copy(vx2, X);
+  Fp25519._1w_full.arith.sqr(vx2);
+  Fp25519._1w_full.arith.mul(vx2, vx2, v);
+  if (Fp25519._1w_full.arith.cmp(vx2, u) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X == 1 && (X[0] | X[1] | X[2] | X[3]) == 0) {
+    /* zero has no negative encoding */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From 52c52131bcd518ba374092d4e5dd7f860dbbcfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 15/33] fix: reject Ed448 public keys that are not the encoding
 of a point

---
 src/edwards448.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index cbcc954..78d7f61 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -792,13 +792,18 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
   Ed448_PublicKey buf;
+  ALIGN uint8_t encoded[SIZE_FP448];
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
-  int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
+  uint8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+  Fp448._1w_red.arith.misc.ser(encoded, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 || memcmp(encoded, buf, SIZE_FP448) != 0) {
+    /* y is not reduced modulo p */
+    return -1;
+  }
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
@@ -835,7 +840,15 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  Fp448._1w_red.arith.misc.ser(encoded, X);
+  if (bit_X == 1) {
+    uint8_t zero[SIZE_FP448] = {0};
+    if (memcmp(encoded, zero, SIZE_FP448) == 0) {
+      /* zero has no negative encoding */
+      return -1;
+    }
+  }
+  if (bit_X != (encoded[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
-- 
2.43.0


From db92c49a9d84816485d792492e6a976e00ab6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 16/33] fix: reject signatures whose scalar is not below the
 group order

---
 src/sign255.c | 27 +++++++++++++++++++++++++++
 src/sign448.c | 31 +++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index b95fca5..ed640cd 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -461,6 +461,29 @@ static int ed25519ph_signctx(
                           context, context_length, public_key, private_key, 0, 1);
 }
 
+/**
+ * Checks that the scalar of a signature is smaller than the order of
+ * the group, as it is required by RFC 8032 (Section 5.1.7).
+ *
+ * @param s
+ * @return 1 if s < order, otherwise 0.
+ */
+static inline int is_reduced_scalar_ed25519(const uint8_t *s) {
+  static const uint8_t order[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -501,6 +524,10 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_reduced_scalar_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
diff --git a/src/sign448.c b/src/sign448.c
index 4705837..234bb13 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -241,6 +241,33 @@ static int ed448ph_signctx(
   return ed448_sign_all(signature, message, message_length, context, context_length, public_key, private_key, 1);
 }
 
+/**
+ * Checks that the scalar of a signature is smaller than the order of
+ * the group, as it is required by RFC 8032 (Section 5.2.7).
+ *
+ * @param s
+ * @return 1 if s < order, otherwise 0.
+ */
+static inline int is_reduced_scalar_ed448(const uint8_t *s) {
+  static const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -297,6 +324,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_reduced_scalar_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From eb80e290d56c28a900eae2bf17e3356964745dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 17/33] fix: allow four-way square roots in place

---
 src/eltfp25519_4w_redradix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index 8273638..6d702ac 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -894,9 +894,10 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  EltFp25519_4w_redradix u;
+  EltFp25519_4w_redradix u, v;
   FN(copy)(u, c); /* invsqrt negates its second operand */
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a can be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 5c9cc8a8c2f2878cb37a5c708aa09d24d3c30b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 18/33] fix: allow the outputs of four-way addsub to coincide
 with its operands

---
 src/eltfp25519_4w_redradix.c | 5 +++--
 src/eltfp448_4w_redradix.c   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index 6d702ac..8b4dc38 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -194,8 +194,9 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 	int i=0;
 	for(i=0;i<NUM_DIGITS_FP25519;i++)
 	{
-		C[i] = ADD(A[i],B[i]);
-		D[i] = ADD(A[i],SUB(_2P[i],B[i]));
+		const __m256i a = A[i], b = B[i];
+		C[i] = ADD(a,b);
+		D[i] = ADD(a,SUB(_2P[i],b));
 	}
 }
 
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 934ed86..e663728 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -230,8 +230,9 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 	int i=0;
 	for(i=0;i<NUM_DIGITS_FP448;i++)
 	{
-		C[i] = ADD(A[i],B[i]);
-		D[i] = ADD(A[i],SUB(_2P[i],B[i]));
+		const __m256i a = A[i], b = B[i];
+		C[i] = ADD(a,b);
+		D[i] = ADD(a,SUB(_2P[i],b));
 	}
 }
 
-- 
2.43.0


From 9f8163380e107caf22629af15bf8fa8e8b1a6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 19/33] fix: carry the result of squaring modulo 2^448-2^224-1
 in reduced radix

---
 src/eltfp448_1w_redradix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 46fcf0b..ae7ef50 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -661,6 +661,7 @@ DECL(void, mul)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, sqr)(argElement_1w c) {
   FN(sqrn)(c, 1);
+  FN(compress)(c); /* sqrn leaves digits of up to 30 bits */
 }
 
 DECL(void, copy)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 8449b6eb52ce7b66e25c28ba661b76a81697d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 20/33] fix: allow one-way square roots in place

---
 src/eltfp25519_1w_fullradix.c | 5 +++--
 src/eltfp25519_1w_redradix.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index 29781bb..467df62 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1517,9 +1517,10 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_fullradix u;
+  EltFp25519_1w_fullradix u, v;
   FN(copy)(u, c); /* invsqrt negates its second operand */
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a can be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b0f32bc..f956b46 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -802,9 +802,10 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_redradix u;
+  EltFp25519_1w_redradix u, v;
   FN(copy)(u, c); /* invsqrt negates its second operand */
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a can be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(void, rand)(argElement_1w a) {
-- 
2.43.0


From 826f4f932abe72dda5f2b87f6dd0c59bf575dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 21/33] fix: subtract one without borrowing when decoding Ed448
 public keys

---
 src/edwards448.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 78d7f61..ae71fd9 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -791,6 +791,7 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
+  EltFp448_1w_redradix one = {1};
   Ed448_PublicKey buf;
   ALIGN uint8_t encoded[SIZE_FP448];
 
@@ -808,8 +809,10 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compress(u);
+  Fp448._1w_red.arithex.compress(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
-- 
2.43.0


From 461af6733b00bb05186ce5d4dc1b7d6d35518518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 22/33] fix: add a multiple of the modulus that exceeds the
 subtracted products in Ed25519 verification

---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 6e15067..978b20b 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1219,16 +1219,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From d7beeabca981fe6be43ef241e880ff81c747ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 23/33] fix: read only the 32 bytes of each message in the
 two-way 256-bit SHA-512

---
 third_party/sha512_2way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..3a7edba 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,7 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        for (i = 0; i < 2; i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0


From c459d74e80f21697decba3e26e9db574459b0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 24/33] fix: declare the scratch register of the reduction
 modulo the group order

---
 src/sign255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sign255.c b/src/sign255.c
index ed640cd..e0bfa2f 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -227,7 +227,7 @@ static inline void reduce64bits(uint64_t *a) {
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From f039c9fb5e74e4525ff23f4abff447bb11ccc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 25/33] fix: bring the 12 KB table option of Ed25519 up to the
 current interfaces

---
 src/edwards255.c | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 978b20b..2256a24 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -532,7 +532,7 @@ static inline void point_encoding_ed25519(uint8_t*encP, PointXYZT_2w_H0H5* P) {
  * @param list_digits
  * @param r
  */
-static inline void recoding_signed_scalar_fold4w4(uint64_t *list_signs, uint64_t *list_digits, uint8_t *r)
+static inline void recoding_signed_scalar_fold4w4_ed25519(uint64_t *list_signs, uint64_t *list_digits, uint8_t *r)
 {
 	const int OMEGA = 4;
 	int i,j;
@@ -570,7 +570,7 @@ static inline void recoding_signed_scalar_fold4w4(uint64_t *list_signs, uint64_t
  * @param secret_signs
  * @param secret_digits
  */
-static inline void query_table_fold4w4(Point_precmp_4way *P, const uint8_t * table,uint64_t * secret_signs,uint64_t *secret_digits)
+static inline void query_table_fold4w4_ed25519(Point_precmp_4way *P, const uint8_t * table,uint64_t * secret_signs,uint64_t *secret_digits)
 {
 	const __m256i _P[10] = {
 			SET164(0x3ffffed),	SET164(0x1ffffff),
@@ -611,7 +611,7 @@ static inline void query_table_fold4w4(Point_precmp_4way *P, const uint8_t * tab
 	 * if mask[i] == all_ones for all i
 	 * 	     then no point was selected
 	 */
-	for(j=0;j<4;j++)//num of 64-bit words
+	for(j=0;j<4;j++)/*num of 64-bit words*/
 	{
 		P_addYX[j] = ZERO;
 		P_subYX[j] = ZERO;
@@ -683,15 +683,12 @@ static inline void query_table_fold4w4(Point_precmp_4way *P, const uint8_t * tab
  * @param rB
  * @param r
  */
-static inline void point_multiplication_fold4w4(uint8_t *rB, uint8_t *r)
+static inline void point_multiplication_fold4w4_ed25519(PointXYZT_2w_H0H5 *rB, uint8_t *r)
 {
 	int i;
 	PointXYZT_4way Q;
 	Point_precmp_4way P;
-	PointXYZT_2w_H0H5 Q0,Q1,Q2,Q3;
-	EltFp25519_1w_redradix XX, YY, ZZ, invZZ;
-	Element_1w_Buffer_x64 buffer_1w;
-	EltFp25519_1w_fullradix X, Y, Z, invZ;
+	PointXYZT_2w_H0H5 Q1,Q2,Q3;
 	ALIGN uint64_t K[64];
 	ALIGN uint64_t S[64];
 	const EltFp25519_4w_redradix one_half = {
@@ -702,7 +699,7 @@ static inline void point_multiplication_fold4w4(uint8_t *rB, uint8_t *r)
 			SET164(0x3ffffff),SET164(0x0ffffff)
 	};
 
-	recoding_signed_scalar_fold4w4(S,K,r);
+	recoding_signed_scalar_fold4w4_ed25519(S,K,r);
 
 	Q.Z[0] = SET164(2);
 	for(i=1;i<10;i++)
@@ -710,16 +707,16 @@ static inline void point_multiplication_fold4w4(uint8_t *rB, uint8_t *r)
 		Q.Z[i] = ZERO;
 	}
 
-	query_table_fold4w4(&P, ((uint8_t*)TableSign_w4_12k),S,K);
+	query_table_fold4w4_ed25519(&P, ((uint8_t*)TableSign_w4_12k),S,K);
 	Fp25519._4w_red.arith.sub(Q.X,P.addYX,P.subYX);
 	Fp25519._4w_red.arith.add(Q.Y,P.addYX,P.subYX);
-	new_compressfast2_Element_4w_h0h5(Q.X,Q.Y);
-	Fp25519._4w_red.arithex.intmul(Q.T,Q.X,Q.Y);						Fp25519._4w_red.arithex.compress(Q.T);
-	Fp25519._4w_red.arithex.intmul(Q.T,Q.T,(argEltFp25519_4w_redradix)one_half);	Fp25519._4w_red.arithex.compress(Q.T);
+	Fp25519._4w_red.arithex.new_compressfast2(Q.X,Q.Y);
+	Fp25519._4w_red.arith.mul(Q.T,Q.X,Q.Y);
+	Fp25519._4w_red.arith.mul(Q.T,Q.T,(argElement_4w)one_half);
 
 	for(i=1;i<16;i++)
 	{
-		query_table_fold4w4(&P, ((uint8_t*)TableSign_w4_12k)+768*i,S+4*i,K+4*i);
+		query_table_fold4w4_ed25519(&P, ((uint8_t*)TableSign_w4_12k)+768*i,S+4*i,K+4*i);
 		_4way_mixadd_25519(&Q, &P);
 	}
 
@@ -735,9 +732,9 @@ static inline void point_multiplication_fold4w4(uint8_t *rB, uint8_t *r)
 		__m256i Z_D50B50 = UPKH64(Q.Z[2*i],Q.Z[2*i+1]);
 		__m256i T_D50B50 = UPKH64(Q.T[2*i],Q.T[2*i+1]);
 
-		Q0.XY[i] = PERM128(X_C50A50,Y_C50A50,0x20);
+		rB->XY[i] = PERM128(X_C50A50,Y_C50A50,0x20);
 		Q2.XY[i] = PERM128(X_C50A50,Y_C50A50,0x31);
-		Q0.TZ[i] = PERM128(T_C50A50,Z_C50A50,0x20);
+		rB->TZ[i] = PERM128(T_C50A50,Z_C50A50,0x20);
 		Q2.TZ[i] = PERM128(T_C50A50,Z_C50A50,0x31);
 
 		Q1.XY[i] = PERM128(X_D50B50,Y_D50B50,0x20);
@@ -760,21 +757,7 @@ static inline void point_multiplication_fold4w4(uint8_t *rB, uint8_t *r)
 	_1way_doubling_2w_H0H5(&Q1);
 	_1way_doubling_2w_H0H5(&Q1);
 	_1way_doubling_2w_H0H5(&Q1);
-	_1way_fulladd_2w_H0H5(&Q0,&Q1);
-
-	Fp25519._2w_red.arithex.deinter(XX,YY,Q0.XY);
-	Fp25519._2w_red.arithex.deinter(invZZ,ZZ,Q0.TZ);
-	reduced2full_radix(X,XX);
-	reduced2full_radix(Y,YY);
-	reduced2full_radix(Z,ZZ);
-
-	Fp25519._1w_full.arith.inv(invZ,Z);
-	Fp25519._1w_full.arith.mul(X,X,invZ);
-	Fp25519._1w_full.arith.mul((uint64_t*)rB,Y,invZ);
-	fred_EltFp25519_1w_x64(X);
-	fred_EltFp25519_1w_x64((uint64_t*)rB);
-
-	rB[31] = rB[31] | (uint8_t)((X[0]&0x1)<<7);
+	_1way_fulladd_2w_H0H5(rB,&Q1);
 }
 
 #elif LOOKUP_TABLE_SIZE == LUT_24KB
-- 
2.43.0


From 7ab5e9152606e2c38e42e30870b7e6313877b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 26/33] fix: add a multiple of the modulus that exceeds the
 subtracted products in the four-way Fp448 addsublar

---
 src/eltfp448_4w_redradix.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index e663728..c4ebacd 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -237,21 +237,21 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 }
 
 DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
-  const __m256i _2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000)
+  const __m256i _2_to_35P[NUM_DIGITS_FP448] = {
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff000000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000)
   };
   int i=0;
   for(i=0;i<NUM_DIGITS_FP448;i++)
   {
       __m256i add = ADD(A[i],B[i]);
-      __m256i sub = ADD(A[i],SUB(_2_to_34P[i], B[i]));
+      __m256i sub = ADD(A[i],SUB(_2_to_35P[i], B[i]));
       A[i] = add;
       B[i] = sub;
   }
-- 
2.43.0


From 6fec0f6aabc1f2ba3b21b87c07ae7e1469ac83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 27/33] fix: subtract from a large enough multiple of the
 modulus in the two-way doubling on edwards25519

---
 src/eltfp25519_2w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..419bb4e 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -711,7 +711,7 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
     __m256i T = SUB(_2P[i],A[i]);
-    C[i] = SUB(T,B[i]);
+    C[i] = ADD(T,SUB(_2P[i],B[i]));
     D[i] = ADD(T,B[i]);
   }
 }
-- 
2.43.0


From 29c0776164fd33f28c66cd58da224cb2c83a827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 28/33] fix: subtract from a large enough multiple of the
 modulus in Ed448 verification

---
 src/edwards448.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index ae71fd9..78d9262 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -501,15 +501,16 @@ static inline void _1way_doubling_2w_H0H8(PointXYZT_2w_H0H8 * P) {
 static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precompute_4w_H0H8 * P) {
   int i;
   EltFp448_4w_redradix ABCD, subYX_addYX_T_Z;
-  const __m256i CONST_2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000), SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000)
+  /* added where a product is subtracted, the products can exceed 2^62 */
+  const __m256i CONST_2_to_35P_00_00[NUM_DIGITS_FP448] = {
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff000000000, 0, 0, 0x7ffffff000000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000)
   };
 
   const __m256i CONST_2P_00_00_00[NUM_DIGITS_FP448] = {
@@ -523,7 +524,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
       SET64(0, 0, 0, 0x1ffffffe), SET64(0, 0, 0, 0x1ffffffe)
   };
 
-  argElement_4w _2_to_34P = (argElement_2w) CONST_2_to_34P;
+  argElement_4w _2_to_35P = (argElement_4w) CONST_2_to_35P_00_00;
   argElement_4w _2P_00_00_00 = (argElement_2w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -543,7 +544,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP448; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp448._4w_red.arithex.compress(EGHF);
 
-- 
2.43.0


From 92634866830020fded9086d0714239f2e6aa5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 29/33] fix: Ed448: keep the carry of the third fold in the
 reduction modulo the order

---
 src/edwards448.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 78d9262..6fbfc1b 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -71,7 +71,7 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	}
 	word64_multiplier(product,8,ellx4,4,high,1);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
 	product[6] &= (((uint64_t)1)<<62)-1;
 	word64_multiplier(product,8,ell,4,high,1);
 	for(i=0;i<56;i++)
-- 
2.43.0


From b6900f935e96009886dd767afd830a483cc6d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 30/33] fix: two-way SHA-512: take the length as size_t,
 h2c25519_avx2 truncated it to 32 bits

---
 third_party/multi_hash.h  | 2 +-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..84e554b 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -76,7 +76,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index 3a7edba..25577f6 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From f16f11808bcdee0f6fc75c0f46ec772693ea3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 31/33] fix: machine_info: ADX does not make up for another
 missing extension

---
 third_party/cpu_caps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 2bca091..265c5e9 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -94,7 +94,7 @@ void machine_info(void) {
   test_capability(ebx, bit_ADX);
 
   printf("Machine supports our library: %s\n",
-         (run == 11 || run == 12) ? "Yes" : "No");
+         (run - ((ebx & bit_ADX) != 0) == 11) ? "Yes" : "No");
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 0df98ea348be207b25495524f7c6c17f69512614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 32/33] fix: machine_info: do not read leaf 7 of a processor
 that has none

---
 third_party/cpu_caps.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 265c5e9..d5cfc21 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -83,11 +83,22 @@ void machine_info(void) {
   test_capability(ecx, bit_SSE4_2);
   test_capability(ecx, bit_AVX);
 
-  eax = 7;
+  eax = 0;
   ebx = 0;
   ecx = 0;
   edx = 0;
   my_cpuid(eax, ebx, ecx, edx);
+
+  /* beyond the last leaf the answer has another meaning */
+  if (eax >= 7) {
+    eax = 7;
+    ebx = 0;
+    ecx = 0;
+    edx = 0;
+    my_cpuid(eax, ebx, ecx, edx);
+  } else {
+    ebx = 0;
+  }
   test_capability(ebx, bit_AVX2);
   test_capability(ebx, bit_BMI);
   test_capability(ebx, bit_BMI2);
-- 
2.43.0


From 961299b1ce98afcb129336f4eba8f470cc05e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:55 +0000
Subject: [PATCH 33/33] fix: X448 key generation: erase the working copies of
 the scalar divided by four

---
 src/edwards448.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index 6fbfc1b..c35e7c1 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -82,6 +82,8 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	{
 		a[i]=0;
 	}
+	spc_memset(product, 0, sizeof(product));
+	spc_memset(high, 0, sizeof(high));
 }
 
 /**
@@ -115,6 +117,8 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 		number_div_4[i] = ((uint8_t*)product)[i];
 	}
 	number_div_4[ED448_KEY_SIZE_BYTES_PARAM-1] = 0;
+	spc_memset(a, 0, sizeof(a));
+	spc_memset(product, 0, sizeof(product));
 }
 
 /**
@@ -759,6 +763,7 @@ static inline void fixed_point_multiplication_ed448(PointXYZT_2w_H0H8 * rB, uint
 	Ed448_PublicKey r_div_4;
 	div4(r_div_4,r);
 	point_multiplication_fold4w4(rB,r_div_4);
+	spc_memset(r_div_4, 0, sizeof(r_div_4));
 }
 
 /**
-- 
2.43.0

