From 88bc000306e184bc9ac28fcb9dd4273806176b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:46 +0000
Subject: [PATCH 1/4] fix: read S from the secret key without misaligned 16-bit
 accesses

crypto_kem_dec dereferenced a uint16_t pointer into the caller's byte buffer,
which is undefined behaviour when sk is not 2-byte aligned.
---
 src/kem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..1d0b229 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -165,7 +165,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     const uint8_t *ct_c2 = &ct[(PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8];
     const uint8_t *sk_s = &sk[0];
     const uint8_t *sk_pk = &sk[CRYPTO_BYTES];
-    const uint16_t *sk_S = (uint16_t *) &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
+    const uint8_t *sk_S = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
     uint16_t S[PARAMS_N * PARAMS_NBAR];                      // contains secret data
     const uint8_t *sk_pkh = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES + 2*PARAMS_N*PARAMS_NBAR];
     const uint8_t *pk_seedA = &sk_pk[0];
@@ -185,8 +185,9 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES);
 #endif
 
+    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);                 // sk may have any alignment
     for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
-        S[i] = LE_TO_UINT16(sk_S[i]);
+        S[i] = LE_TO_UINT16(S[i]);
     }
 
     // Compute W = C - Bp*S (mod q), and decode the randomness mu
-- 
2.43.0


From 98701583749b8ee44a8914776af33176160dc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 2/4] fix: convert A from little-endian words in the portable
 S'*A + E' product

frodo_mul_add_as_plus_e converts the generated rows of A with LE_TO_UINT16,
frodo_mul_add_sa_plus_e did not, so the optimized generic implementation used
a byte-swapped matrix in Encaps/Decaps on big-endian targets.
---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..e4b6807 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -230,6 +230,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 #endif
 
 #if !defined(USE_AVX2)
+        for (p = 0; p < 8*PARAMS_N; p++) {
+            A[p] = LE_TO_UINT16(A[p]);
+        }
         for (j = 0; j < PARAMS_NBAR; j++) {
             uint16_t sum = 0;
             int16_t sp[8];
-- 
2.43.0


From f9d2a4da988d98f98e52ac13f3f6defa52b844f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 3/4] fix: make the portable AES reentrant

The cipher state pointer was a file-scope variable, so two threads encrypting at
the same time could work on each other's block.
---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From 5b2b057a5e4bd106d8c7959df3d87e37e177dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 4/4] fix: round half up when decoding in the Python reference

The specification's rounding is floor(x + 1/2). Python's built-in round() rounds ties to even, so an entry exactly between two codewords was decoded differently from the C implementation (and the specification), giving a different shared secret for such ciphertexts.
---
 python3/frodokem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..41a3def 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -320,8 +320,9 @@ class FrodoKEM(object):
         for i in range(self.mbar):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
-                # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B, where round(x) = floor(x + 1/2)
+                # (Python's built-in round() rounds ties to even, so it cannot be used here)
+                tmp = ((K[i][j] * (2 ** self.B) + self.q // 2) // self.q) % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0

