From 19896dac78127b097d84928a674c8928b55202a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 01/25] fix: fail key generation and signing when the
 randomness source fails

The status of randombytes() was ignored, so a failing source led to keys,
nonces and signing seeds made from uninitialised stack memory.
---
 falcon/nistfalcon/src/epervier16.c |  8 ++++++--
 falcon/nistfalcon/src/nist.c       | 15 ++++++++++++---
 falcon/nistfalcon/src/nist16.c     | 15 ++++++++++++---
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..63583c1 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -114,7 +114,9 @@ zknox_crypto_sign_epervier(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Create a random nonce (40 bytes).
 	 */
-	randombytes(nonce, sizeof nonce);
+	if (randombytes(nonce, sizeof nonce) != 0) {
+		return -1;
+	}
 
 	/*
 	 * Hash message nonce + message into a vector.
@@ -129,7 +131,9 @@ zknox_crypto_sign_epervier(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Initialize a RNG.
 	 */
-	randombytes(seed, sizeof seed);
+	if (randombytes(seed, sizeof seed) != 0) {
+		return -1;
+	}
 	inner_shake256_init(&sc);
 	inner_shake256_inject(&sc, seed, sizeof seed);
 	inner_shake256_flip(&sc);
diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..574204c 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -42,7 +42,10 @@ int crypto_sign_keypair(unsigned char *pk, unsigned char *sk)
 	/*
 	 * Generate key pair.
 	 */
-	randombytes(seed, sizeof seed);
+	if (randombytes(seed, sizeof seed) != 0)
+	{
+		return -1;
+	}
 	inner_shake256_init(&rng);
 	inner_shake256_inject(&rng, seed, sizeof seed);
 	inner_shake256_flip(&rng);
@@ -231,7 +234,10 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Create a random nonce (40 bytes).
 	 */
-	randombytes(nonce, sizeof nonce);
+	if (randombytes(nonce, sizeof nonce) != 0)
+	{
+		return -1;
+	}
 
 	/*
 	 * Hash message nonce + message into a vector.
@@ -253,7 +259,10 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Initialize a RNG.
 	 */
-	randombytes(seed, sizeof seed);
+	if (randombytes(seed, sizeof seed) != 0)
+	{
+		return -1;
+	}
 	inner_shake256_init(&sc);
 	inner_shake256_inject(&sc, seed, sizeof seed);
 	inner_shake256_flip(&sc);
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..3a1c35e 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -43,7 +43,10 @@ int zknox_crypto_sign_keypair(unsigned char *pk, unsigned char *sk)
 	/*
 	 * Generate key pair.
 	 */
-	randombytes(seed, sizeof seed);
+	if (randombytes(seed, sizeof seed) != 0)
+	{
+		return -1;
+	}
 	inner_shake256_init(&rng);
 	inner_shake256_inject(&rng, seed, sizeof seed);
 	inner_shake256_flip(&rng);
@@ -236,7 +239,10 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Create a random nonce (40 bytes).
 	 */
-	randombytes(nonce, sizeof nonce);
+	if (randombytes(nonce, sizeof nonce) != 0)
+	{
+		return -1;
+	}
 
 	/*
 	 * Hash message nonce + message into a vector.
@@ -258,7 +264,10 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	/*
 	 * Initialize a RNG.
 	 */
-	randombytes(seed, sizeof seed);
+	if (randombytes(seed, sizeof seed) != 0)
+	{
+		return -1;
+	}
 	inner_shake256_init(&sc);
 	inner_shake256_inject(&sc, seed, sizeof seed);
 	inner_shake256_flip(&sc);
-- 
2.43.0


From 5cd8a740b4e330849b882e31efad0b82bb4bbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 02/25] fix: reject messages that the Keccak PRNG buffer cannot
 hold

With ETHFALCON, the message was dropped without an error once nonce and
message exceeded the 4096-byte buffer: all such messages hashed to the
same point when signing, and to another one when opening.
---
 falcon/nistfalcon/src/nist.c   | 11 ++++++++---
 falcon/nistfalcon/src/nist16.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 574204c..597be28 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -244,8 +244,10 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0 || (mlen > 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -362,7 +364,10 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 3a1c35e..754ae09 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -249,8 +249,10 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0 || (mlen > 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -375,7 +377,10 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From fcb10854cbb832e46a62fc32baafcca8c10b00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 03/25] fix: reject negative coefficients in 16-bit signatures

A 16-bit word with its top bit set passed the range check as a negative
int16_t, so a coefficient -x could be sent both as q-x and as 65536-x:
the signature was malleable.
---
 falcon/nistfalcon/src/codec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..53f6a8e 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,7 +624,7 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
 			w = (acc >> acc_len) & 0xFFFF;
-- 
2.43.0


From 80e559857b847e8a342037bea24d2e2715882f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 04/25] fix: check the Epervier signature length before
 decoding it

Anything shorter than the two encoded vectors and the hint was read past
its end, and longer signatures were accepted with unauthenticated bytes.
---
 falcon/nistfalcon/src/epervier16.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 63583c1..25843ec 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -232,7 +232,7 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != ZKNOX_CRYPTO_BYTES_EPERVIER - NONCELEN - 2 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From d37032229a998018e31bfa85292011a55cb26c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 05/25] fix: prng_get_bytes() must not output the start of its
 buffer again

Whatever had been consumed already, the bytes were copied from the start
of the buffer.
---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0


From 3684011fa693dae6a78f4bde375689740aadf628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 06/25] fix: do not apply the NTT twice to Epervier public keys

zknox_crypto_sign_keypair() outputs NTT(h); transforming it again made
every genuine Epervier signature fail to open.
---
 falcon/nistfalcon/src/epervier16.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 25843ec..2f8735d 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,10 +26,10 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
-	// Hash is not computed here
+	// In epervier, pk = H(NTT(h)); hash is not computed here.
+	// zknox_crypto_sign_keypair() already outputs NTT(h), not in montgomery
+	// representation: it is only checked here.
 	TEMPALLOC uint16_t h[512];
-	size_t v;
 
 	// Decode h
 	 if (pk[0] != 0x00 + 9) {
@@ -41,19 +41,6 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
-
-	/*
-	 * Re-encode public key.
-	 */
-	pk[0] = 0x00 + 9;
-	v = Zf(modq_encode16)(pk + 1, ZKNOX_CRYPTO_PUBLICKEYBYTES - 1, h, 9);
-	
-	if (v != ZKNOX_CRYPTO_PUBLICKEYBYTES - 1) {
-		return -1;
-	}
-
 	return 0;
 }
 
-- 
2.43.0


From de9fb0a2a0b3cd1cf8ed4223b147b45c5cd48181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 07/25] fix: serialise access to the shared DRBG state

Concurrent callers (goroutines of the Go binding, for instance) could be
given the same bytes, that is the same keys, nonces and signing seeds.
---
 falcon/nistfalcon/src/katrng.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/falcon/nistfalcon/src/katrng.c b/falcon/nistfalcon/src/katrng.c
index 7297500..80fcf1f 100644
--- a/falcon/nistfalcon/src/katrng.c
+++ b/falcon/nistfalcon/src/katrng.c
@@ -5,6 +5,7 @@
 //  Copyright © 2017 Bassham, Lawrence E (Fed). All rights reserved.
 //
 
+#include <pthread.h>
 #include <string.h>
 #include "katrng.h"
 /* removed -- use custom AES implementation instead of OpenSSL.
@@ -16,6 +17,9 @@
 
 AES256_CTR_DRBG_struct  DRBG_ctx;
 
+/* DRBG_ctx is shared by all callers. */
+static pthread_mutex_t  DRBG_lock = PTHREAD_MUTEX_INITIALIZER;
+
 void    AES256_ECB(unsigned char *key, unsigned char *ctr, unsigned char *buffer);
 
 /*
@@ -149,10 +153,12 @@ randombytes_init(unsigned char *entropy_input,
     if (personalization_string)
         for (int i=0; i<48; i++)
             seed_material[i] ^= personalization_string[i];
+    pthread_mutex_lock(&DRBG_lock);
     memset(DRBG_ctx.Key, 0x00, 32);
     memset(DRBG_ctx.V, 0x00, 16);
     AES256_CTR_DRBG_Update(seed_material, DRBG_ctx.Key, DRBG_ctx.V);
     DRBG_ctx.reseed_counter = 1;
+    pthread_mutex_unlock(&DRBG_lock);
 }
 
 int
@@ -161,6 +167,7 @@ randombytes(unsigned char *x, unsigned long long xlen)
     unsigned char   block[16];
     int             i = 0;
     
+    pthread_mutex_lock(&DRBG_lock);
     while ( xlen > 0 ) {
         //increment V
         for (int j=15; j>=0; j--) {
@@ -184,6 +191,7 @@ randombytes(unsigned char *x, unsigned long long xlen)
     }
     AES256_CTR_DRBG_Update(NULL, DRBG_ctx.Key, DRBG_ctx.V);
     DRBG_ctx.reseed_counter++;
+    pthread_mutex_unlock(&DRBG_lock);
 
     return RNG_SUCCESS;
 }
-- 
2.43.0


From f00a86dcb2cb7f2164167ee2842f78c043dad477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 08/25] fix: seed the DRBG from the operating system when
 nobody seeded it

The Go and JavaScript bindings never call randombytes_init(): every
process started from the same all-zero state and went through the same
keys, nonces and signing seeds as the one before.
---
 falcon/nistfalcon/src/katrng.c | 12 ++++++++++++
 falcon/nistfalcon/src/katrng.h |  1 +
 2 files changed, 13 insertions(+)

diff --git a/falcon/nistfalcon/src/katrng.c b/falcon/nistfalcon/src/katrng.c
index 80fcf1f..775b06b 100644
--- a/falcon/nistfalcon/src/katrng.c
+++ b/falcon/nistfalcon/src/katrng.c
@@ -7,6 +7,7 @@
 
 #include <pthread.h>
 #include <string.h>
+#include <unistd.h>
 #include "katrng.h"
 /* removed -- use custom AES implementation instead of OpenSSL.
 #include <openssl/conf.h>
@@ -168,6 +169,17 @@ randombytes(unsigned char *x, unsigned long long xlen)
     int             i = 0;
     
     pthread_mutex_lock(&DRBG_lock);
+    if ( DRBG_ctx.reseed_counter == 0 ) {
+        // nobody called randombytes_init(): seed from the operating system
+        unsigned char   seed_material[48];
+        
+        if ( getentropy(seed_material, sizeof seed_material) != 0 ) {
+            pthread_mutex_unlock(&DRBG_lock);
+            return RNG_BAD_ENTROPY;
+        }
+        AES256_CTR_DRBG_Update(seed_material, DRBG_ctx.Key, DRBG_ctx.V);
+        DRBG_ctx.reseed_counter = 1;
+    }
     while ( xlen > 0 ) {
         //increment V
         for (int j=15; j>=0; j--) {
diff --git a/falcon/nistfalcon/src/katrng.h b/falcon/nistfalcon/src/katrng.h
index e46415c..4f89ded 100644
--- a/falcon/nistfalcon/src/katrng.h
+++ b/falcon/nistfalcon/src/katrng.h
@@ -14,6 +14,7 @@
 #define RNG_BAD_MAXLEN  -1
 #define RNG_BAD_OUTBUF  -2
 #define RNG_BAD_REQ_LEN -3
+#define RNG_BAD_ENTROPY -4
 
 typedef struct {
     unsigned char   buffer[16];
-- 
2.43.0


From 33caf9e74ebc497f5083f2023383f2424f2d1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 09/25] fix: size the buffers of the Go binding by its inputs

Signing more than 640 bytes, or verifying such a signature, overflowed a
fixed-size buffer; short keys were read past their end; empty messages
and signatures panicked.
---
 falcon/falcon.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..85b0a28 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -42,35 +42,43 @@ func GenerateKeypair() ([]byte, []byte, error) {
 
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
-	var sm [SignatureSize]C.uchar
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("invalid secret key length: %d", len(sk))
+	}
+	// The output is the message and at most CRYPTO_BYTES more
+	sm := make([]byte, len(message)+C.CRYPTO_BYTES)
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(bytesPtr(sm), &smlen, bytesPtr(message), C.ulonglong(len(message)), bytesPtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
 
-	// Convert signature to Go byte slice
-	smBytes := C.GoBytes(unsafe.Pointer(&sm[0]), C.int(smlen))
-	return smBytes, nil
+	return sm[:smlen], nil
 }
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
-	var m [1024]C.uchar // Buffer for the recovered message
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("invalid public key length: %d", len(pk))
+	}
+	// Buffer for the recovered message, which is part of the signature
+	m := make([]byte, len(signature))
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(bytesPtr(m), &mlen, bytesPtr(signature), C.ulonglong(len(signature)), bytesPtr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
 
-	// Convert recovered message back to Go byte slice
-	recoveredMessage := C.GoBytes(unsafe.Pointer(&m[0]), C.int(mlen))
-
 	// Compare the recovered message with the original message
-	if string(recoveredMessage) == string(message) {
+	if string(m[:mlen]) == string(message) {
 		return true, nil
 	}
 	return false, nil
 }
+
+// bytesPtr returns a pointer to the content of b, which may be empty
+func bytesPtr(b []byte) *C.uchar {
+	return (*C.uchar)(unsafe.Pointer(unsafe.SliceData(b)))
+}
-- 
2.43.0


From f3bf81afbe3706fdb3cfb86d8d396c6bcb2088cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 10/25] fix: decompress() must return False for every invalid
 encoding

Truncated and all-zero inputs raised IndexError or ValueError instead, and
whatever followed the last coefficient was accepted, which made signatures
malleable.
---
 pythonref/encoding.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..3ee58ce 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -73,9 +72,13 @@ def decompress(x, slen, n):
         # In this case, the encoding is invalid
         if (len(v) != n):
             return False
+        # Enforce a unique encoding: only zeros may follow the last coef
+        if (u != ""):
+            return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if there are no low bits to read
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From 6fe504ec11396e9678bcfac53fd08c50fad6bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 11/25] fix: KeccaXOF.read() must return as many bytes as it
 was asked for

Only read(2) worked: read(1) returned two bytes, read(3) raised.
---
 pythonref/keccaxof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..5599322 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -17,8 +17,8 @@ class KeccaXOF:
             raise ValueError('KeccaXOF.update() called after digest()')
         self.input.append(data)
 
-    def read(self, bytes):
-        to_slice = bytes * 2
+    def read(self, length):
+        to_slice = length * 2
         if self.last is None:
             keccak_hash = keccak.new(digest_bits=256)
             keccak_hash.update(encode_packed(
@@ -34,7 +34,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return bytes.fromhex(buff)
 
     def flip(self):
         return
-- 
2.43.0


From c2e46989c039391cd83c9085b602d69871fbc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 12/25] fix: check the range of the inverse in recoverable
 signatures

Its coefficients were only checked modulo q, so that a signature could be
altered and still be accepted; and an invalid one matched the public key 0.
---
 pythonref/falcon_epervier.py | 5 ++++-
 pythonref/falcon_recovery.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..214fef5 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -41,6 +41,9 @@ class EpervierPublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # Enforce a unique encoding
+        if len(s_1_inv_ntt) != self.n or any(x >= q for x in s_1_inv_ntt):
+            return False
         T = ntt(q)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
@@ -70,7 +73,7 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..65f5abf 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -41,6 +41,9 @@ class RecoveryModePublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # Enforce a unique encoding
+        if len(s_1_inv_ntt) != self.n or any(x >= q for x in s_1_inv_ntt):
+            return False
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
@@ -74,7 +77,7 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From c36c20a9ec204901a704b22cf471741acd2bdd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 13/25] fix: derive the signing randomness from the private key
 and the whole message

The command line signs deterministically, but it read the SHAKE output before
flip(): the data in the last block was ignored, so different messages shared
their salt and seed. The 'secret key' in its input was the public key.
---
 pythonref/sign_cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..f732310 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -121,11 +121,14 @@ def signature(sk, data, version):
     ))
     # separator
     deterministic_bytes.update(bytes([0x00]))
-    # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    # secret key encoded (h is public: the randomness must depend on f and g)
+    deterministic_bytes.update(
+        b''.join(x.to_bytes(2, 'big', signed=True) for x in sk.f + sk.g))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    # without this the last block of the input is ignored
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From abd3b3ad292b4efc0010b9bb8efe597387b80d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 14/25] fix: make sign_tx and the verification of falconrec
 signatures work

sign_tx called verify_signature() and print_signature_transaction() with the
wrong arguments; verify_signature() raised for the version 'falconrec'.
---
 pythonref/sign_cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index f732310..852f921 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -171,10 +171,11 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
+    elif version == 'ethfalcon' or version == 'falconrec':
         XOF = KeccakPRNG
     else:
         print('NOT IMPLEMENTED YET')
+        return False
     return pk.verify(data, sig, xof=XOF)
 
 
@@ -387,10 +388,13 @@ def cli():
         )
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
+        if version not in ('falcon', 'ethfalcon'):
+            print("This version is not implemented.")
+            return
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From ba60d19b659b73fcc3dce70960a1215e300ee888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 15/25] fix: pass every argument to the on-chain recovery of
 Epervier keys

The signature of recover() ended with a comma for the call, and S1 was missing
from the transaction.
---
 pythonref/sign_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 852f921..c966e63 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -203,7 +203,7 @@ def recover_on_chain(data, sig, contract_address, rpc, version):
 
     command = [
         "cast", "call", contract_address,
-        "recover(bytes,bytes,uint256[],uint256[],uint256,)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
     ]
 
     result = subprocess.run(
@@ -273,11 +273,12 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         hint = (hint * elt) % q
     HINT = str(hint)
 
-    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[], uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
+    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[],uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
         private_key,
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From ca58f63e95bf93f1ad071e0ee314ddc150f3b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/25] fix: save the keys and the signature of the command
 line atomically

A crash or a full disk left torn files: a public key whose version was cut
from 'falconrec' to 'falcon', a key pair of two halves, or a public key
whose private key was lost.
---
 pythonref/sign_cli.py | 46 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index c966e63..a47a9e8 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -1,6 +1,7 @@
 #!myenv/bin/python
 import argparse
 import ast
+import os
 import subprocess
 from common import falcon_compact, q
 from encoding import decompress
@@ -38,28 +39,40 @@ def generate_keys(n, version):
     return sk, pk
 
 
+def save_file(text, filename):
+    """Replace the file as a whole: a crash leaves the old file or the new one."""
+    temporary = filename + ".tmp"
+    with open(temporary, "w") as f:
+        f.write(text)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(temporary, filename)
+    directory = os.open(os.path.dirname(filename) or ".", os.O_RDONLY)
+    try:
+        os.fsync(directory)
+    finally:
+        os.close(directory)
+
+
 def save_pk(pk, filename, version):
-    with open(filename, "w") as f:
-        f.write("# public key\n")
-        f.write("n = {}\n".format(pk.n))
-        f.write("pk = {}\n".format(pk.pk))
-        f.write("version = {}\n".format(version))
+    save_file("# public key\n"
+              + "n = {}\n".format(pk.n)
+              + "pk = {}\n".format(pk.pk)
+              + "version = {}\n".format(version), filename)
 
 
 def save_sk(sk, filename, version):
-    with open(filename, "w") as f:
-        f.write("# private key\n")
-        f.write("n = {}\n".format(sk.n))
-        f.write("f = {}\n".format(sk.f))
-        f.write("g = {}\n".format(sk.g))
-        f.write("F = {}\n".format(sk.F))
-        f.write("G = {}\n".format(sk.G))
-        f.write("version = {}\n".format(version))
+    save_file("# private key\n"
+              + "n = {}\n".format(sk.n)
+              + "f = {}\n".format(sk.f)
+              + "g = {}\n".format(sk.g)
+              + "F = {}\n".format(sk.F)
+              + "G = {}\n".format(sk.G)
+              + "version = {}\n".format(version), filename)
 
 
 def save_signature(sig, filename):
-    with open(filename, "w") as f:
-        f.write(sig.hex())
+    save_file(sig.hex(), filename)
 
 
 def load_pk(filename):
@@ -364,8 +377,9 @@ def cli():
             return
         n = 512
         priv, pub = generate_keys(n, args.version)
-        save_pk(pub, "public_key.pem", args.version)
+        # the public key must never be there without its private key
         save_sk(priv, "private_key.pem", args.version)
+        save_pk(pub, "public_key.pem", args.version)
         print("Keys generated and saved.")
 
     elif args.action == "sign":
-- 
2.43.0


From 3357bad58ccf1f6b81d767c6b57815db9a42a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 17/25] fix: refuse private keys that do not satisfy the NTRU
 equation

The fourth element was only recomputed modulo q. With a degenerate key,
e.g. f = g and F = G, signing never returned.
---
 falcon/nistfalcon/src/inner.h |  3 ++-
 falcon/nistfalcon/src/vrfy.c  | 26 ++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/falcon/nistfalcon/src/inner.h b/falcon/nistfalcon/src/inner.h
index 49c2f26..b91fe3a 100644
--- a/falcon/nistfalcon/src/inner.h
+++ b/falcon/nistfalcon/src/inner.h
@@ -356,7 +356,8 @@ int Zf(compute_public)(uint16_t *h,
  *
  * The tmp[] array must have room for at least 4*2^logn bytes.
  *
- * Returned value is 1 in success, 0 on error (f not invertible).
+ * Returned value is 1 in success, 0 on error (f not invertible, or the
+ * equation above has no solution).
  * tmp[] must have 16-bit alignment.
  */
 int Zf(complete_private)(int8_t *G,
diff --git a/falcon/nistfalcon/src/vrfy.c b/falcon/nistfalcon/src/vrfy.c
index 0a8b2ec..bf06688 100644
--- a/falcon/nistfalcon/src/vrfy.c
+++ b/falcon/nistfalcon/src/vrfy.c
@@ -763,8 +763,9 @@ int Zf(complete_private)(int8_t *G,
 						 const int8_t *f, const int8_t *g, const int8_t *F,
 						 unsigned logn, uint8_t *tmp)
 {
-	size_t u, n;
+	size_t u, v, n;
 	uint16_t *t1, *t2;
+	uint32_t r;
 
 	n = (size_t)1 << logn;
 	t1 = (uint16_t *)tmp;
@@ -806,7 +807,28 @@ int Zf(complete_private)(int8_t *G,
 		}
 		G[u] = (int8_t)gi;
 	}
-	return 1;
+
+	/*
+	 * So far, fG - gF = q only holds modulo q. Signing with a basis
+	 * for which it is not true may never return.
+	 */
+	r = 0;
+	for (u = 0; u < n; u++)
+	{
+		int32_t s;
+
+		s = 0;
+		for (v = 0; v <= u; v++)
+		{
+			s += (int32_t)f[v] * G[u - v] - (int32_t)g[v] * F[u - v];
+		}
+		for (; v < n; v++)
+		{
+			s -= (int32_t)f[v] * G[n + u - v] - (int32_t)g[v] * F[n + u - v];
+		}
+		r |= (uint32_t)s ^ (u == 0 ? Q : 0);
+	}
+	return r == 0;
 }
 
 /* see inner.h */
-- 
2.43.0


From 1e7bf96542a92262bfef28c12b3914e266e5060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 18/25] fix: verifiers return False for messages too long to be
 signed

Messages that the buffer of the XOF cannot hold made verify() and recover() raise ValueError.
---
 pythonref/falcon.py          | 11 +++++++----
 pythonref/falcon_epervier.py |  9 +++++++--
 pythonref/falcon_recovery.py |  9 +++++++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..9b22ddf 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -300,10 +300,13 @@ class PublicKey:
         # Compute s0 and normalize its coefficients in (-q/2, q/2]
         if xof == KeccakPRNG:
             xof = xof.new()
-        hashed = Poly(
-            self.hash_to_point(self.n, message, salt, xof=xof),
-            q, ntt=ntt
-        )
+        try:
+            hashed = self.hash_to_point(self.n, message, salt, xof=xof)
+        except ValueError:
+            # The XOF cannot hold the message: nobody can have signed it
+            print("Message too long")
+            return False
+        hashed = Poly(hashed, q, ntt=ntt)
         s1 = Poly(s1, q, ntt=ntt)
         pk = Poly(self.pk, q, ntt=ntt)
         s0 = hashed - s1 * pk
diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index 214fef5..5d27198 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -59,8 +59,13 @@ class EpervierPublicKey:
             return False
 
         # Compute s0 and normalize its coefficients in (-q/2, q/2]
-        hashed = Poly(self.hash_to_point(
-            self.n, message, salt, xof=xof), q, ntt=ntt)
+        try:
+            hashed = self.hash_to_point(self.n, message, salt, xof=xof)
+        except ValueError:
+            # The XOF cannot hold the message: nobody can have signed it
+            print("Message too long")
+            return False
+        hashed = Poly(hashed, q, ntt=ntt)
         s0 = Poly(s0, q, ntt=ntt)
         # recover h
         h_ntt = T.vec_mul((hashed-s0).ntt(), s_1_inv_ntt)
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index 65f5abf..5eff69d 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -60,8 +60,13 @@ class RecoveryModePublicKey:
             return False
 
         # Compute s0 and normalize its coefficients in (-q/2, q/2]
-        hashed = Poly(self.hash_to_point(
-            self.n, message, salt, xof=xof), q, ntt=ntt)
+        try:
+            hashed = self.hash_to_point(self.n, message, salt, xof=xof)
+        except ValueError:
+            # The XOF cannot hold the message: nobody can have signed it
+            print("Message too long")
+            return False
+        hashed = Poly(hashed, q, ntt=ntt)
         # we use positive coefficients for s0 here
         s0 = Poly([elt + q if elt < 0 else elt for elt in s0], q, ntt=ntt)
         # recover h
-- 
2.43.0


From d1a87bad41a751c67ca3fd7369f6271fe2a78a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 19/25] fix: PublicKey.from_bytes() must accept Falcon-1024
 keys

It asked for 1792 bytes, the length without the header, so that no
Falcon-1024 key could be read.
---
 pythonref/falcon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 9b22ddf..080c40c 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,14 +240,14 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 bytes: 512 coefficients, each 14 bits (1792 bytes for falcon-1024)
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,9 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        if len(pk_bytes) != HEAD_LEN + n * 14 // 8:
+            raise ValueError("The public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From 5045d1687049f6e78b6d0301d87a5758ffc3bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 20/25] fix: do not pass on-chain transaction arguments through
 a shell

---
 pythonref/sign_cli.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index a47a9e8..2106437 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -286,19 +286,13 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         hint = (hint * elt) % q
     HINT = str(hint)
 
-    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[],uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
-        private_key,
-        contract_address,
-        MSG,
-        SALT,
-        S1,
-        S2,
-        HINT,
-        rpc
-    )
+    # no shell: an RPC URL may contain & or ?
+    command = [
+        "cast", "send", "--private-key", private_key, contract_address,
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+    ]
     result = subprocess.run(
         command,
-        shell=True,
         capture_output=True,
         text=True
     )
@@ -323,18 +317,13 @@ def verify_signature_on_chain_with_transaction(pk, data, sig, contract_address,
     pk_compact = falcon_compact(Poly(pk.pk, q).ntt())
     PK = str(pk_compact)
 
-    command = "cast send --private-key {} {} \"verify(bytes,bytes,uint256[],uint256[])\" {} {} \"{}\" \"{}\" --rpc-url {}".format(
-        private_key,
-        contract_address,
-        MSG,
-        SALT,
-        S2,
-        PK,
-        rpc
-    )
+    # no shell: an RPC URL may contain & or ?
+    command = [
+        "cast", "send", "--private-key", private_key, contract_address,
+        "verify(bytes,bytes,uint256[],uint256[])", MSG, SALT, S2, PK, "--rpc-url", rpc
+    ]
     result = subprocess.run(
         command,
-        shell=True,
         capture_output=True,
         text=True
     )
-- 
2.43.0


From 6881e883dd34bac4ba9c60d2453f53667d4d52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 21/25] fix: read 16-bit signature coefficients as centered
 values

---
 falcon/nistfalcon/src/codec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index 53f6a8e..5da64ff 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -631,8 +631,8 @@ Zf(comp_decode16)(
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
+			// centered: 6145..12288 are negative
+			w -= 12289 & ~((w - 6145) >> 31);
 			x[u++] = w;
 		}
 	}
-- 
2.43.0


From 2d18da92183551dbfff19cee444ff58f97af5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:11 +0000
Subject: [PATCH 22/25] fix: randombytes() overflows its offset on requests of
 2 GiB and more

---
 falcon/nistfalcon/src/katrng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/katrng.c b/falcon/nistfalcon/src/katrng.c
index 775b06b..7ef066e 100644
--- a/falcon/nistfalcon/src/katrng.c
+++ b/falcon/nistfalcon/src/katrng.c
@@ -166,7 +166,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long  i = 0;
     
     pthread_mutex_lock(&DRBG_lock);
     if ( DRBG_ctx.reseed_counter == 0 ) {
-- 
2.43.0


From 61c006a781b0d5cebfa2ebb2f816ba9ee2b0c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 23/25] fix: the random source counts its requests in 64 bits,
 so that it is not seeded again after 2^32 of them

---
 falcon/nistfalcon/src/katrng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/katrng.h b/falcon/nistfalcon/src/katrng.h
index 4f89ded..56d113e 100644
--- a/falcon/nistfalcon/src/katrng.h
+++ b/falcon/nistfalcon/src/katrng.h
@@ -27,7 +27,7 @@ typedef struct {
 typedef struct {
     unsigned char   Key[32];
     unsigned char   V[16];
-    int             reseed_counter;
+    unsigned long long  reseed_counter;
 } AES256_CTR_DRBG_struct;
 
 
-- 
2.43.0


From 2b047b93513dd71b21a7a07c0ff750c9af1dd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 24/25] fix: commands that save the same file at once shared
 one temporary file

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 2106437..f7f118e 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -41,7 +41,8 @@ def generate_keys(n, version):
 
 def save_file(text, filename):
     """Replace the file as a whole: a crash leaves the old file or the new one."""
-    temporary = filename + ".tmp"
+    # (another command may save to the same file at the same time)
+    temporary = "{}.{}.tmp".format(filename, os.getpid())
     with open(temporary, "w") as f:
         f.write(text)
         f.flush()
-- 
2.43.0


From 893e926fc5c4d737e3b08288b392c880eb9ef7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:37 +0000
Subject: [PATCH 25/25] fix: forked processes went on with the same random
 bytes

---
 falcon/nistfalcon/src/katrng.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/katrng.c b/falcon/nistfalcon/src/katrng.c
index 7ef066e..98b7ae2 100644
--- a/falcon/nistfalcon/src/katrng.c
+++ b/falcon/nistfalcon/src/katrng.c
@@ -21,6 +21,9 @@ AES256_CTR_DRBG_struct  DRBG_ctx;
 /* DRBG_ctx is shared by all callers. */
 static pthread_mutex_t  DRBG_lock = PTHREAD_MUTEX_INITIALIZER;
 
+/* The process that seeded DRBG_ctx from the operating system; 0: randombytes_init(). */
+static pid_t    DRBG_pid;
+
 void    AES256_ECB(unsigned char *key, unsigned char *ctr, unsigned char *buffer);
 
 /*
@@ -159,6 +162,7 @@ randombytes_init(unsigned char *entropy_input,
     memset(DRBG_ctx.V, 0x00, 16);
     AES256_CTR_DRBG_Update(seed_material, DRBG_ctx.Key, DRBG_ctx.V);
     DRBG_ctx.reseed_counter = 1;
+    DRBG_pid = 0;
     pthread_mutex_unlock(&DRBG_lock);
 }
 
@@ -169,8 +173,9 @@ randombytes(unsigned char *x, unsigned long long xlen)
     unsigned long long  i = 0;
     
     pthread_mutex_lock(&DRBG_lock);
-    if ( DRBG_ctx.reseed_counter == 0 ) {
-        // nobody called randombytes_init(): seed from the operating system
+    if ( DRBG_ctx.reseed_counter == 0 || (DRBG_pid != 0 && DRBG_pid != getpid()) ) {
+        // nobody called randombytes_init(): seed from the operating system,
+        // and again after a fork(), so that both processes do not go on alike
         unsigned char   seed_material[48];
         
         if ( getentropy(seed_material, sizeof seed_material) != 0 ) {
@@ -179,6 +184,7 @@ randombytes(unsigned char *x, unsigned long long xlen)
         }
         AES256_CTR_DRBG_Update(seed_material, DRBG_ctx.Key, DRBG_ctx.V);
         DRBG_ctx.reseed_counter = 1;
+        DRBG_pid = getpid();
     }
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0

