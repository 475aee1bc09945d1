From f6db92a34755ce97c85d1d8b4fac2d515895b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:38 +0000
Subject: [PATCH 1/8] fix: make the standalone C AES reentrant

aes_c.c kept a pointer to the block being encrypted in a file-scope static, so two
threads using the library without OpenSSL and without AES-NI corrupted each other's
matrix A. Pass the state as a parameter instead.
---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From 8f7f2691962558bab987c3d57844f53c6ed55a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:38 +0000
Subject: [PATCH 2/8] fix: report failure of the randomness source from key
 generation and encapsulation

The return value of randombytes() was ignored: when it failed, keys and shared secrets
were derived from uninitialised stack memory and the call still returned 0.
---
 src/kem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..af33569 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -32,7 +32,7 @@ int crypto_kem_keypair(unsigned char* pk, unsigned char* sk)
     uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
 
     // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
-    randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
+    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0) return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
 #endif
@@ -101,7 +101,7 @@ int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk
 
     // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
     shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
-    randombytes(mu, BYTES_MU);
+    if (randombytes(mu, BYTES_MU) != 0) return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(mu, BYTES_MU);
 #endif
-- 
2.43.0


From 431ca6a0c3ba9fbc580a1115363ebe052e65f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:38 +0000
Subject: [PATCH 3/8] fix: round ties upwards in the Python reference's decode

Python's round() rounds halves to even, the specification (floor(x + 1/2)) and the C code
round them up: coefficients exactly between two messages decoded differently.
---
 python3/frodokem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..899aa36 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -321,7 +321,7 @@ class FrodoKEM(object):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
                 # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                tmp = ((K[i][j] * (2 ** self.B) + self.q // 2) // self.q) % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0


From 3d2959ec8c5b16dc540a9ea4c29c9e87cf9d7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:38 +0000
Subject: [PATCH 4/8] fix: refuse unknown variants in the Python reference

assert with a non-empty string is always true, so a misspelt variant gave an object
without parameters instead of an error.
---
 python3/frodokem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 899aa36..775be5f 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -42,7 +42,7 @@ class FrodoKEM(object):
             self.setParamsFrodo1344()
             self.gen = self.genSHAKE128
         else:
-            assert "Unknown variant"
+            assert False, "Unknown variant"
         warnings.warn("WARNING: This Python3 implementation of FrodoKEM is not designed to be fast or secure, and may leak secret information via timing or other side channels; it should not be used in production environments.")
 
     def setParamsFrodo640(self):
-- 
2.43.0


From 282a0ea26ce2f404519cc7a07c420a4da9c5b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:51 +0000
Subject: [PATCH 5/8] fix: randombytes reported success without delivering
 requests of 2^31 bytes or more

---
 src/random/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7cea45c..e8f4e32 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -34,7 +34,8 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     }
 
 #elif defined(NIX)
-    int r, n = (int)nbytes, count = 0;
+    ssize_t r;
+    unsigned long long n = nbytes, count = 0;
     
     if (lock == -1) {
         do {
-- 
2.43.0


From e24d0d96c5e8ecf0ff567e480cbdf3a7272591e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:51 +0000
Subject: [PATCH 6/8] fix: threads making the first call to randombytes at once
 raced on the device's descriptor and leaked it

---
 src/random/random.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index e8f4e32..a3a0585 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -37,18 +37,23 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     ssize_t r;
     unsigned long long n = nbytes, count = 0;
     
-    if (lock == -1) {
-        do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
-                delay(0xFFFFF);
+    int fd = __atomic_load_n(&lock, __ATOMIC_ACQUIRE);
+    while (fd == -1) {
+        fd = open("/dev/urandom", O_RDONLY);
+        if (fd == -1) {
+            delay(0xFFFFF);
+        } else {
+            int current = -1;
+            if (!__atomic_compare_exchange_n(&lock, &current, fd, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+                close(fd);    // another thread has opened it meanwhile
+                fd = current;
             }
-        } while (lock == -1);
+        }
     }
 
     while (n > 0) {
         do {
-            r = read(lock, random_array+count, n);
+            r = read(fd, random_array+count, n);
             if (r == -1) {
                 delay(0xFFFF);
             }
-- 
2.43.0


From 206e98dd91af2a685275d683979a2d3db738c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:15 +0000
Subject: [PATCH 7/8] fix: randombytes on Windows delivered only the length
 modulo 2^32 of larger requests

---
 src/random/random.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index a3a0585..046c5dd 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -29,8 +29,13 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 { // Generation of "nbytes" of random values
     
 #if defined(WINDOWS)   
-    if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, (unsigned long)nbytes, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
-        return failed;
+    while (nbytes > 0) {
+        unsigned long n = nbytes > 0x40000000 ? 0x40000000 : (unsigned long)nbytes;    // the length is 32 bits wide
+        if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, n, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
+            return failed;
+        }
+        random_array += n;
+        nbytes -= n;
     }
 
 #elif defined(NIX)
-- 
2.43.0


From 0c98c9ac7b41b889e3f7fa6d297c672fbc50ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 8/8] fix: on big-endian machines encapsulation used a
 byte-swapped matrix A unlike key generation (optimized implementation)

---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..b75593e 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -228,6 +228,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
                     (unsigned long long)(2*PARAMS_N), seed_A_separated_0, seed_A_separated_1, seed_A_separated_2, seed_A_separated_3, 2 + BYTES_SEED_A);
 #endif
 #endif
+        for (p = 0; p < 8*PARAMS_N; p++) {
+            A[p] = LE_TO_UINT16(A[p]);
+        }
 
 #if !defined(USE_AVX2)
         for (j = 0; j < PARAMS_NBAR; j++) {
-- 
2.43.0

