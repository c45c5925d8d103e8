From ff8adda957d53f55d72df7c744e9bc63e789f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 01/42] fix: SM4-XTS (x86_64) continues the tweak across
 updates of one data unit

Each update restarted from the first tweak, so data split over several
updates was encrypted with repeated tweaks and could not be exchanged with
the portable implementation.
---
 crypto/sm4/src/crypt_sm4_x86_64.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crypto/sm4/src/crypt_sm4_x86_64.c b/crypto/sm4/src/crypt_sm4_x86_64.c
index b3dc78d..a9aebda 100644
--- a/crypto/sm4/src/crypt_sm4_x86_64.c
+++ b/crypto/sm4/src/crypt_sm4_x86_64.c
@@ -93,7 +93,7 @@ static void SM4_XTS_Encrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 }
 
 int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk,
-                   const uint8_t* tweak, const uint32_t dataLen)
+                   uint8_t* tweak, const uint32_t dataLen)
 {
     uint32_t left;
 
@@ -111,16 +111,14 @@ int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk
 
     if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
         SM4_XTS_Encrypt_Blocks(plain, cipher, dataLen, dataRk, t);
+        SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
     }
 
-    if (left == 0) {
-        return CRYPT_SUCCESS;
-    } else {
-        if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
-            SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
-        }
+    if (left != 0) {
         SM4_XTS_Encrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
     }
+    // The next update of this data unit continues with the following tweak.
+    memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
     return CRYPT_SUCCESS;
 }
 
@@ -186,7 +184,7 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 }
 
 int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk,
-                   const uint8_t* tweak, const uint32_t dataLen)
+                   uint8_t* tweak, const uint32_t dataLen)
 {
     uint32_t j;
     uint32_t left;
@@ -205,17 +203,17 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
 
     if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
         SM4_XTS_Encrypt_Blocks(cipher, plain, dataLen, dataRk, t);
+        SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
+        for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
+            t[j + CRYPT_SM4_BLOCKSIZE] = t[j + LAST_BLOCK_HEAD];
+        }
     }
 
     if (left != 0) {
-        if (dataLen >= CRYPT_SM4_BLOCKSIZE_16) {
-            SM4_XTS_Calculate_Tweak(t, LAST_BLOCK_HEAD);
-            for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
-                t[j + CRYPT_SM4_BLOCKSIZE] = t[j + LAST_BLOCK_HEAD];
-            }
-        }
         SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
     }
+    // The next update of this data unit continues with the following tweak.
+    memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
     return CRYPT_SUCCESS;
 }
 
-- 
2.43.0


From 55b78e3b2d094a122a6cf0d3f53468a5cb1e2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:23 +0000
Subject: [PATCH 02/42] fix: XTS ciphertext stealing works in place

With in == out the SM4 (x86_64) and the portable XTS code overwrote the last
partial block (and, decrypting, the last full block) before reading it.
---
 crypto/modes/src/modes_xts.c      |  5 +++--
 crypto/sm4/src/crypt_sm4_x86_64.c | 14 +++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crypto/modes/src/modes_xts.c b/crypto/modes/src/modes_xts.c
index cde6bf9..ff3909c 100644
--- a/crypto/modes/src/modes_xts.c
+++ b/crypto/modes/src/modes_xts.c
@@ -223,8 +223,8 @@ int32_t MODES_XTS_Encrypt(MODES_CipherXTSCtx *ctx, const uint8_t *in, uint8_t *o
     lastBlock = tmpOut - blockSize;
     // Process the subsequent two pieces of data.
     for (i = 0; i < tmpLen; i++) {
+        pp[i] = tmpIn[i]; // read before write: in and out may be the same buffer
         tmpOut[i] = lastBlock[i];
-        pp[i] = tmpIn[i];
     }
 
     for (i = tmpLen; i < blockSize; i++) {
@@ -290,8 +290,9 @@ int32_t MODES_XTS_Decrypt(MODES_CipherXTSCtx *ctx, const uint8_t *in, uint8_t *o
     tmpLen -= blockSize;
 
     for (i = 0; i < tmpLen; i++) {
+        uint8_t last = tmpIn[i + blockSize]; // read before write: in and out may be the same buffer
         tmpOut[i + blockSize] = pp[i];
-        pp[i] = tmpIn[i + blockSize];
+        pp[i] = last;
     }
 
     ret = BlockCrypt(ctx, pp, t2, pp, false);
diff --git a/crypto/sm4/src/crypt_sm4_x86_64.c b/crypto/sm4/src/crypt_sm4_x86_64.c
index a9aebda..58ca56e 100644
--- a/crypto/sm4/src/crypt_sm4_x86_64.c
+++ b/crypto/sm4/src/crypt_sm4_x86_64.c
@@ -75,8 +75,8 @@ static void SM4_XTS_Encrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
 
     if (left != 0) {
         for (i = 0; i < left; i++) {
+            x[i] = plain[init + i];  // read before write: plain and cipher may be the same buffer
             cipher[init + i] = cipher[init - CRYPT_SM4_BLOCKSIZE + i];
-            x[i] = plain[init + i];
         }
         for (i = left; i < CRYPT_SM4_BLOCKSIZE; i++) {
             x[i] = cipher[init - CRYPT_SM4_BLOCKSIZE + i];
@@ -123,7 +123,8 @@ int32_t SM4_XTS_En(uint8_t* cipher, const uint8_t* plain, const uint32_t* dataRk
 }
 
 static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_t* t, uint8_t *x,
-                                   uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk)
+                                   uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk,
+                                   const uint8_t *lastBlock)
 {
     uint32_t i, j;
     uint32_t init;
@@ -155,7 +156,7 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
         // recompute
         // m-T
         for (j = 0; j < CRYPT_SM4_BLOCKSIZE; j++) {
-            x[j] = cipher[init - CRYPT_SM4_BLOCKSIZE + j] ^ t[j];
+            x[j] = lastBlock[j] ^ t[j];
         }
         SM4_Decrypt(x, plain + init - CRYPT_SM4_BLOCKSIZE, dataRk);
 
@@ -163,8 +164,8 @@ static void SM4_XTS_Decrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_
             plain[init - CRYPT_SM4_BLOCKSIZE + j] = plain[init - CRYPT_SM4_BLOCKSIZE + j] ^ t[j];
         }
         for (i = 0; i < left; i++) {
+            x[i] = cipher[init + i];  // read before write: plain and cipher may be the same buffer
             plain[init + i] = plain[init - CRYPT_SM4_BLOCKSIZE + i];
-            x[i] = cipher[init + i];
         }
         for (i = left; i < CRYPT_SM4_BLOCKSIZE; i++) {
             x[i] = plain[init - CRYPT_SM4_BLOCKSIZE + i];
@@ -191,12 +192,15 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
 
     uint8_t t[CRYPT_SM4_BLOCKSIZE_16] = {0};
     uint8_t x[CRYPT_SM4_BLOCKSIZE_16] = {0};
+    uint8_t lastBlock[CRYPT_SM4_BLOCKSIZE];
 
     if (dataLen < CRYPT_SM4_BLOCKSIZE) {
         BSL_ERR_PUSH_ERROR(CRYPT_SM4_ERR_MSG_LEN); // need push error code for error point
         return CRYPT_SM4_ERR_MSG_LEN;
     }
     left = dataLen % CRYPT_SM4_BLOCKSIZE_16;
+    // Keep the last full ciphertext block, plain and cipher may be the same buffer.
+    memcpy(lastBlock, cipher + (dataLen / CRYPT_SM4_BLOCKSIZE - 1) * CRYPT_SM4_BLOCKSIZE, CRYPT_SM4_BLOCKSIZE);
 
     // MODES_XTS_Ctrl has TW = Enc_K2(iv) done
     memcpy(t, tweak, CRYPT_SM4_BLOCKSIZE);
@@ -210,7 +214,7 @@ int32_t SM4_XTS_De(uint8_t* plain, const uint8_t* cipher, const uint32_t* dataRk
     }
 
     if (left != 0) {
-        SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk);
+        SM4_XTS_Decrypt_Helper(left, dataLen, t, x, plain, cipher, dataRk, lastBlock);
     }
     // The next update of this data unit continues with the following tweak.
     memcpy(tweak, t, CRYPT_SM4_BLOCKSIZE);
-- 
2.43.0


From 657283b800e56b49773ff73a73cb01b47cdecb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 03/42] fix: BN_Lcm overwrote its second operand and returned
 negative results

---
 crypto/bn/src/bn_gcd.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crypto/bn/src/bn_gcd.c b/crypto/bn/src/bn_gcd.c
index 047d3f2..75c10f8 100644
--- a/crypto/bn/src/bn_gcd.c
+++ b/crypto/bn/src/bn_gcd.c
@@ -275,18 +275,19 @@ int32_t BN_Lcm(BN_BigNum *r, const BN_BigNum *a, const BN_BigNum *b, BN_Optimize
         BN_Destroy(gcd);
         return ret;
     }
-    if (BN_IsOne(gcd) == false) {
-        ret = BN_Div(r, NULL, a, gcd, opt);
-        if (ret != CRYPT_SUCCESS) {
-            BSL_ERR_PUSH_ERROR(ret);
-            BN_Destroy(gcd);
-            return ret;
-        }
+    // The quotient is kept in gcd, because r may be the same object as b.
+    ret = BN_Div(gcd, NULL, a, gcd, opt);
+    if (ret != CRYPT_SUCCESS) {
+        BSL_ERR_PUSH_ERROR(ret);
         BN_Destroy(gcd);
-        return BN_Mul(r, r, b, opt);
+        return ret;
     }
-    BN_Destroy(gcd); // a and b are coprime.
-    return BN_Mul(r, a, b, opt);
+    ret = BN_Mul(r, gcd, b, opt);
+    if (ret == CRYPT_SUCCESS) {
+        r->sign = false; // The LCM is a positive integer
+    }
+    BN_Destroy(gcd);
+    return ret;
 }
 #endif
 
-- 
2.43.0


From c1ab6430de99a7d7a27ebe9ff4c49844025d2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 04/42] fix: BN_ModLimb returned the modulus for negative
 multiples of it

---
 crypto/bn/src/bn_operation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bn/src/bn_operation.c b/crypto/bn/src/bn_operation.c
index 26bd99c..04c00f5 100644
--- a/crypto/bn/src/bn_operation.c
+++ b/crypto/bn/src/bn_operation.c
@@ -591,7 +591,7 @@ int32_t BN_ModLimb(BN_UINT *r, const BN_BigNum *a, const BN_UINT m)
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
-    if (a->sign) {
+    if (a->sign && *r != 0) {
         *r = m - *r;
     }
     return ret;
-- 
2.43.0


From 5c105e2c4be686e5adcfcc0ecec50acf284efaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 05/42] fix: BN_SubLimb left a stale sign in the result

---
 crypto/bn/src/bn_operation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/bn/src/bn_operation.c b/crypto/bn/src/bn_operation.c
index 04c00f5..fc48cf0 100644
--- a/crypto/bn/src/bn_operation.c
+++ b/crypto/bn/src/bn_operation.c
@@ -181,6 +181,7 @@ int32_t BN_SubLimb(BN_BigNum *r, const BN_BigNum *a, BN_UINT w)
     }
     if (a->size == 1) {
         if (a->data[0] >= w) {
+            r->sign = false;
             r->data[0] = a->data[0] - w;
             r->size = BinFixSize(r->data, 1);
         } else {
-- 
2.43.0


From b36cb6b43ee512cfd6c8746605d98175d29dceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 06/42] fix: BN_Mul took residual words into an in-place result

---
 crypto/bn/src/bn_operation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bn/src/bn_operation.c b/crypto/bn/src/bn_operation.c
index fc48cf0..62eceed 100644
--- a/crypto/bn/src/bn_operation.c
+++ b/crypto/bn/src/bn_operation.c
@@ -261,6 +261,7 @@ int32_t BN_Mul(BN_BigNum *r, const BN_BigNum *a, const BN_BigNum *b, BN_Optimize
     }
 #endif
 
+    t->size = BinFixSize(t->data, size);
     if (r != t) {
         ret = BN_Copy(r, t);
         if (ret != CRYPT_SUCCESS) {
@@ -269,7 +270,6 @@ int32_t BN_Mul(BN_BigNum *r, const BN_BigNum *a, const BN_BigNum *b, BN_Optimize
             return ret;
         }
     }
-    r->size = BinFixSize(r->data, size);
     OptimizerEnd(opt);
     return CRYPT_SUCCESS;
 }
-- 
2.43.0


From f0e8220391a649ae0efa3533e15b6b9c165d83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:33 +0000
Subject: [PATCH 07/42] fix: BN_Sqr gave a wrong result when squaring in place

---
 crypto/bn/src/bn_operation.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crypto/bn/src/bn_operation.c b/crypto/bn/src/bn_operation.c
index 62eceed..7de3c7b 100644
--- a/crypto/bn/src/bn_operation.c
+++ b/crypto/bn/src/bn_operation.c
@@ -325,9 +325,18 @@ int32_t BN_Sqr(BN_BigNum *r, const BN_BigNum *a, BN_Optimizer *opt)
         return ret;
     }
 
+    BN_BigNum *t = r;
+    if (r == a) {
+        t = OptimizerGetBn(opt, r->room); // the input is still needed while the result is being written
+        if (t == NULL) {
+            OptimizerEnd(opt);
+            BSL_ERR_PUSH_ERROR(CRYPT_BN_OPTIMIZER_GET_FAIL);
+            return CRYPT_BN_OPTIMIZER_GET_FAIL;
+        }
+    }
 #ifdef HITLS_CRYPTO_BN_COMBA
     if (a->size <= SMALL_CONQUER_SIZE && a->size % 2 == 0) { // 2 is to check if a->size is even.
-        SqrConquer(r->data, a->data, a->size, NULL, false);
+        SqrConquer(t->data, a->data, a->size, NULL, false);
     } else {
         BN_BigNum *tmpBn = OptimizerGetBn(opt, SpaceSize(a->size));
         if (tmpBn == NULL) {
@@ -335,16 +344,22 @@ int32_t BN_Sqr(BN_BigNum *r, const BN_BigNum *a, BN_Optimizer *opt)
             BSL_ERR_PUSH_ERROR(CRYPT_BN_OPTIMIZER_GET_FAIL);
             return CRYPT_BN_OPTIMIZER_GET_FAIL;
         }
-        SqrConquer(r->data, a->data, a->size, tmpBn->data, false);
+        SqrConquer(t->data, a->data, a->size, tmpBn->data, false);
     }
 #else
-    BinSqr(r->data, a->size << 1, a->data, a->size);
+    BinSqr(t->data, a->size << 1, a->data, a->size);
 #endif
 
-    r->size = BinFixSize(r->data, a->size * 2); // The r->data size is a->size * 2.
-    r->sign = false; // The square must be positive.
+    t->size = BinFixSize(t->data, a->size * 2); // The t->data size is a->size * 2.
+    t->sign = false; // The square must be positive.
+    if (r != t) {
+        ret = BN_Copy(r, t);
+        if (ret != CRYPT_SUCCESS) {
+            BSL_ERR_PUSH_ERROR(ret);
+        }
+    }
     OptimizerEnd(opt);
-    return CRYPT_SUCCESS;
+    return ret;
 }
 
 int32_t DivInputCheck(const BN_BigNum *q, const BN_BigNum *r, const BN_BigNum *x,
-- 
2.43.0


From d34bf64ed675aa06fe840bed8645740f62b4b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:33 +0000
Subject: [PATCH 08/42] fix: BN_SetBit took residual words into the number

---
 crypto/bn/src/bn_basic.c | 4 +++-
 crypto/bn/src/bn_rand.c  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bn/src/bn_basic.c b/crypto/bn/src/bn_basic.c
index 359ea1e..ded8c0c 100644
--- a/crypto/bn/src/bn_basic.c
+++ b/crypto/bn/src/bn_basic.c
@@ -337,10 +337,12 @@ int32_t BN_SetBit(BN_BigNum *a, uint32_t n)
         BSL_ERR_PUSH_ERROR(CRYPT_BN_SPACE_NOT_ENOUGH);
         return CRYPT_BN_SPACE_NOT_ENOUGH;
     }
-    a->data[nw] |= (((BN_UINT)1) << nb);
     if (a->size < nw + 1) {
+        // The words above a->size may hold residual data.
+        memset(a->data + a->size, 0, (nw + 1 - a->size) * sizeof(BN_UINT));
         a->size = nw + 1;
     }
+    a->data[nw] |= (((BN_UINT)1) << nb);
     return CRYPT_SUCCESS;
 }
 
diff --git a/crypto/bn/src/bn_rand.c b/crypto/bn/src/bn_rand.c
index eed6477..4ff0e48 100644
--- a/crypto/bn/src/bn_rand.c
+++ b/crypto/bn/src/bn_rand.c
@@ -111,6 +111,7 @@ int32_t BN_RandEx(void *libCtx, BN_BigNum *r, uint32_t bits, uint32_t top, uint3
         return ret;
     }
     r->data[0] |= (bottom == BN_RAND_BOTTOM_TWOBIT) ? 0x3 : (BN_UINT)bottom;  // CheckTopAndBottom ensure that bottom>0
+    r->size = BinFixSize(r->data, BITS_TO_BN_UNIT(bits));
     if (top == BN_RAND_TOP_ONEBIT) {
         (void)BN_SetBit(r, bits - 1);
     } else if (top == BN_RAND_TOP_TWOBIT) {
-- 
2.43.0


From b7be6c1316fb69d05ebf11be00b27d2317603eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:55 +0000
Subject: [PATCH 09/42] fix: RSA-PSS maximum salt length for moduli of 8k+1
 bits

---
 crypto/rsa/src/rsa_padding.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto/rsa/src/rsa_padding.c b/crypto/rsa/src/rsa_padding.c
index 528879b..d81bd7e 100644
--- a/crypto/rsa/src/rsa_padding.c
+++ b/crypto/rsa/src/rsa_padding.c
@@ -166,7 +166,9 @@ int32_t CRYPT_RSA_SetPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *hashMethod, con
         ctx->pad.salt.len = 0;
     } else if (saltLen != 0) {
         // Generate a salt information to the salt.
-        RETURN_RET_IF_ERR_EX(GenPssSalt(LIBCTX_FROM_RSA_CTX(ctx), &salt, hashMethod, (int32_t)saltLen, padLen), ret);
+        // The salt of the maximum length fills the encoded message, whose length is ceil((modBits - 1) / 8).
+        RETURN_RET_IF_ERR_EX(GenPssSalt(LIBCTX_FROM_RSA_CTX(ctx), &salt, hashMethod, (int32_t)saltLen,
+            BN_BITS_TO_BYTES(CRYPT_RSA_GetBits(ctx) - 1)), ret);
     }
     RETURN_RET_IF((salt.data == NULL && salt.len != 0), CRYPT_RSA_ERR_PSS_SALT_DATA);
     uint32_t keyBits = CRYPT_RSA_GetBits(ctx);
@@ -306,7 +308,8 @@ int32_t CRYPT_RSA_VerifyPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *hashMethod,
     if (saltLength == (uint32_t)CRYPT_RSA_SALTLEN_TYPE_HASHLEN) { // saltLength is -1
         saltLength = (uint32_t)ctx->pad.para.pss.mdMeth.mdSize;
     } else if (saltLength == (uint32_t)CRYPT_RSA_SALTLEN_TYPE_MAXLEN) { // saltLength is -2
-        saltLength = (uint32_t)(padLen - ctx->pad.para.pss.mdMeth.mdSize - 2); // salt, obtains DRBG
+        // salt, obtains DRBG, the length of the encoded message is ceil((modBits - 1) / 8)
+        saltLength = (uint32_t)(BN_BITS_TO_BYTES(keyBits - 1) - ctx->pad.para.pss.mdMeth.mdSize - 2);
     }
     RETURN_RET_IF_ERR(PssEncodeLengthCheck(keyBits, hLen, saltLength, dataLen, padLen), ret);
     //  EM = maskedDB || H || 0xbc
-- 
2.43.0


From b94069b17c2e71c251329d7e23395fee8343c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 10/42] fix: RSA signatures longer than the modulus are refused

---
 crypto/rsa/src/rsa_encdec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 5c87489..98cee79 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -942,6 +942,10 @@ int32_t CRYPT_RSA_VerifyData(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t d
     }
     uint32_t bits = CRYPT_RSA_GetBits(ctx);
     uint32_t padLen = BN_BITS_TO_BYTES(bits);
+    if (signLen > padLen) { // The signature is an octet string of the length of the modulus.
+        BSL_ERR_PUSH_ERROR(CRYPT_RSA_ERR_INPUT_VALUE);
+        return CRYPT_RSA_ERR_INPUT_VALUE;
+    }
     uint8_t *pad = BSL_SAL_Malloc(padLen);
     if (pad == NULL) {
         BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
@@ -1192,6 +1196,10 @@ int32_t CRYPT_RSA_Recover(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t data
     }
     RETURN_RET_IF(data == NULL, CRYPT_NULL_INPUT);
     uint32_t emLen = BN_BITS_TO_BYTES(CRYPT_RSA_GetBits(ctx));
+    if (dataLen > emLen) { // The signature is an octet string of the length of the modulus.
+        BSL_ERR_PUSH_ERROR(CRYPT_RSA_ERR_INPUT_VALUE);
+        return CRYPT_RSA_ERR_INPUT_VALUE;
+    }
     uint8_t *emMsg = BSL_SAL_Malloc(emLen);
     if (emMsg == NULL) {
         BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
-- 
2.43.0


From 666f32e9d345f9daed76f1fc3930a6234722a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 11/42] fix: a duplicated RSA context keeps the OAEP label

---
 crypto/rsa/src/rsa_keygen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/rsa/src/rsa_keygen.c b/crypto/rsa/src/rsa_keygen.c
index ae268bf..950b108 100644
--- a/crypto/rsa/src/rsa_keygen.c
+++ b/crypto/rsa/src/rsa_keygen.c
@@ -203,6 +203,9 @@ CRYPT_RSA_Ctx *CRYPT_RSA_DupCtx(CRYPT_RSA_Ctx *keyCtx)
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->para, keyCtx->para, RSAParaDupCtx(keyCtx->para), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->mdAttr, keyCtx->mdAttr, BSL_SAL_Dump(keyCtx->mdAttr,
         strlen(keyCtx->mdAttr) + 1), CRYPT_MEM_ALLOC_FAIL);
+    GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->label.data, keyCtx->label.data, BSL_SAL_Dump(keyCtx->label.data,
+        keyCtx->label.len), CRYPT_MEM_ALLOC_FAIL);
+    newKeyCtx->label.len = keyCtx->label.len;
     newKeyCtx->libCtx = keyCtx->libCtx;
     return newKeyCtx;
 
-- 
2.43.0


From 8cc550f953e3230706c535383133eff8ad90ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 12/42] fix: Paillier ciphertexts have the fixed length that
 decryption requires

---
 crypto/paillier/src/paillier_encdec.c | 11 ++++++++++-
 crypto/paillier/src/paillier_keygen.c |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crypto/paillier/src/paillier_encdec.c b/crypto/paillier/src/paillier_encdec.c
index 1610934..8050bcd 100644
--- a/crypto/paillier/src/paillier_encdec.c
+++ b/crypto/paillier/src/paillier_encdec.c
@@ -111,10 +111,19 @@ static int32_t CRYPT_PAILLIER_PubEnc(const CRYPT_PAILLIER_Ctx *ctx, const uint8_
         goto EXIT;
     }
 
-    ret = BN_Bn2Bin(result, out, outLen);
+    // The ciphertext is always twice as long as the modulus n, which is what the decryption expects.
+    uint32_t cipherLen = BN_BITS_TO_BYTES(bits) * 2;
+    if (*outLen < cipherLen) {
+        BSL_ERR_PUSH_ERROR(CRYPT_PAILLIER_BUFF_LEN_NOT_ENOUGH);
+        ret = CRYPT_PAILLIER_BUFF_LEN_NOT_ENOUGH;
+        goto EXIT;
+    }
+    ret = BN_Bn2BinFixZero(result, out, cipherLen);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
+        goto EXIT;
     }
+    *outLen = cipherLen;
 EXIT:
     BN_Destroy(m);
     BN_Destroy(r);
diff --git a/crypto/paillier/src/paillier_keygen.c b/crypto/paillier/src/paillier_keygen.c
index bd229bd..78bc1af 100644
--- a/crypto/paillier/src/paillier_keygen.c
+++ b/crypto/paillier/src/paillier_keygen.c
@@ -321,7 +321,7 @@ uint32_t CRYPT_PAILLIER_GetBits(const CRYPT_PAILLIER_Ctx *ctx)
         return ctx->para->bits;
     }
     if (ctx->prvKey != NULL) {
-        return BN_Bits(ctx->prvKey->lambda);
+        return BN_Bits(ctx->prvKey->n);
     }
     if (ctx->pubKey != NULL) {
         return BN_Bits(ctx->pubKey->n);
-- 
2.43.0


From 4f84d9f6b907b19db1faf4b35de4b192d9fdb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 13/42] fix: a duplicated DH context keeps its flags

---
 crypto/dh/src/dh_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/dh/src/dh_core.c b/crypto/dh/src/dh_core.c
index b13db7d..9bdc692 100644
--- a/crypto/dh/src/dh_core.c
+++ b/crypto/dh/src/dh_core.c
@@ -299,6 +299,7 @@ CRYPT_DH_Ctx *CRYPT_DH_DupCtx(CRYPT_DH_Ctx *ctx)
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->x, ctx->x, BN_Dup(ctx->x), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->y, ctx->y, BN_Dup(ctx->y), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->para, ctx->para, ParaDup(ctx->para), CRYPT_MEM_ALLOC_FAIL);
+    newKeyCtx->flags = ctx->flags;
     newKeyCtx->libCtx = ctx->libCtx;
     return newKeyCtx;
 
-- 
2.43.0


From 74184d6e0292d4d5f0073e3e174a6bdce0acde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:27 +0000
Subject: [PATCH 14/42] fix: SM2 decryption refuses a ciphertext whose C3 is
 shorter than a digest

---
 crypto/sm2/src/sm2_crypt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/sm2/src/sm2_crypt.c b/crypto/sm2/src/sm2_crypt.c
index 43d927c..769f3df 100644
--- a/crypto/sm2/src/sm2_crypt.c
+++ b/crypto/sm2/src/sm2_crypt.c
@@ -296,6 +296,13 @@ static int32_t DecodeEncryptData(const uint8_t *data, uint32_t datalen, uint8_t
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
+    // C3 is a whole SM3 digest, a shorter one must not be completed with the zeros of the buffer
+    if (encData.hashLen != SM3_MD_SIZE) {
+        BSL_SAL_Free(*decode);
+        *decode = NULL;
+        BSL_ERR_PUSH_ERROR(CRYPT_SM2_DECRYPT_FAIL);
+        return CRYPT_SM2_DECRYPT_FAIL;
+    }
 
     // Return cipher related information
     *cipher = encData.cipher;
-- 
2.43.0


From 0ae6f5309599db80b2431378115dadb308004269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 15/42] fix: ClientHello carries ALPN lists longer than 255
 bytes with their length

---
 tls/handshake/pack/src/pack_extensions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls/handshake/pack/src/pack_extensions.c b/tls/handshake/pack/src/pack_extensions.c
index 1c5669d..d94a910 100644
--- a/tls/handshake/pack/src/pack_extensions.c
+++ b/tls/handshake/pack/src/pack_extensions.c
@@ -500,7 +500,7 @@ static int32_t PackClientAlpnList(const TLS_Ctx *ctx, PackPacket *pkt)
 {
     int32_t ret = HITLS_SUCCESS;
     uint16_t exMsgHeaderLen = 0u;
-    uint8_t exMsgDataLen = 0u;
+    uint16_t exMsgDataLen = 0u;
     const TLS_Config *config = &(ctx->config.tlsConfig);
 
     if (config->alpnListSize == 0) {
@@ -516,7 +516,7 @@ static int32_t PackClientAlpnList(const TLS_Ctx *ctx, PackPacket *pkt)
 
     /* Calculate the extension length */
     exMsgHeaderLen = sizeof(uint16_t);
-    exMsgDataLen = (uint8_t)config->alpnListSize;
+    exMsgDataLen = (uint16_t)config->alpnListSize;
 
     ret = PackExtensionHeader(HS_EX_TYPE_APP_LAYER_PROTOCOLS, exMsgHeaderLen + exMsgDataLen, pkt);
     if (ret != HITLS_SUCCESS) {
-- 
2.43.0


From 199c480eb6aba8615645e817fb50202e9934c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:24 +0000
Subject: [PATCH 16/42] fix: the server can select a 255-byte ALPN protocol

---
 tls/handshake/pack/src/pack_extensions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tls/handshake/pack/src/pack_extensions.c b/tls/handshake/pack/src/pack_extensions.c
index d94a910..b3e8303 100644
--- a/tls/handshake/pack/src/pack_extensions.c
+++ b/tls/handshake/pack/src/pack_extensions.c
@@ -1101,7 +1101,7 @@ int32_t PackServerSelectAlpnProto(const TLS_Ctx *ctx, PackPacket *pkt)
 {
     int32_t ret = HITLS_SUCCESS;
     uint16_t exMsgHeaderLen = 0u;
-    uint8_t exMsgDataLen = 0u;
+    uint16_t exMsgDataLen = 0u;
 
     if (ctx->negotiatedInfo.alpnSelectedSize == 0) {
         return HITLS_SUCCESS;
@@ -1109,7 +1109,7 @@ int32_t PackServerSelectAlpnProto(const TLS_Ctx *ctx, PackPacket *pkt)
 
     /* Calculate the extension length */
     exMsgHeaderLen = sizeof(uint16_t);
-    exMsgDataLen = (uint8_t)ctx->negotiatedInfo.alpnSelectedSize + sizeof(uint8_t);
+    exMsgDataLen = (uint16_t)(ctx->negotiatedInfo.alpnSelectedSize + sizeof(uint8_t));
 
     /* Pack the extension header */
     ret = PackExtensionHeader(HS_EX_TYPE_APP_LAYER_PROTOCOLS, exMsgHeaderLen + exMsgDataLen, pkt);
@@ -1117,9 +1117,9 @@ int32_t PackServerSelectAlpnProto(const TLS_Ctx *ctx, PackPacket *pkt)
         return ret;
     }
 
-    (void)PackAppendUint16ToBuf(pkt, (uint16_t)exMsgDataLen);
+    (void)PackAppendUint16ToBuf(pkt, exMsgDataLen);
 
-    (void)PackAppendUint8ToBuf(pkt, exMsgDataLen - sizeof(uint8_t));
+    (void)PackAppendUint8ToBuf(pkt, (uint8_t)(exMsgDataLen - sizeof(uint8_t)));
 
     (void)PackAppendDataToBuf(pkt, ctx->negotiatedInfo.alpnSelected, ctx->negotiatedInfo.alpnSelectedSize);
 
-- 
2.43.0


From 2e8b2d4fbd5df59e8216c6f86db55a1d4982e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 17/42] fix: a handshake message sent while an application
 write is pending no longer takes the place of the pending record

---
 tls/alert/src/alert.c      |  3 ++-
 tls/app/src/app.c          |  9 ++++++---
 tls/record/src/rec_write.c | 12 +++++++++++-
 tls/record/src/record.h    |  2 ++
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/tls/alert/src/alert.c b/tls/alert/src/alert.c
index e5a9832..231b731 100644
--- a/tls/alert/src/alert.c
+++ b/tls/alert/src/alert.c
@@ -113,7 +113,8 @@ int32_t ALERT_Flush(TLS_Ctx *ctx)
     }
 #endif
     if (alertCtx->isFlush == false) {
-        if (ctx->recCtx != NULL && ctx->recCtx->pendingData != NULL && alertCtx->description == ALERT_CLOSE_NOTIFY) {
+        if (ctx->recCtx != NULL && ctx->recCtx->pendingData != NULL && !ctx->recCtx->isPendingSent &&
+            alertCtx->description == ALERT_CLOSE_NOTIFY) {
             return HITLS_REC_NORMAL_IO_BUSY;
         }
         uint8_t data[ALERT_DATA_LEN];
diff --git a/tls/app/src/app.c b/tls/app/src/app.c
index cac7d45..89f2d00 100644
--- a/tls/app/src/app.c
+++ b/tls/app/src/app.c
@@ -125,9 +125,11 @@ int32_t APP_Write(TLS_Ctx *ctx, uint8_t recordType, const uint8_t *data, uint32_
     }
 	*writeLen = 0;
 
-    ret = REC_Write(ctx, recordType, data, sendLen);
-    if (ret != HITLS_SUCCESS) {
-        return RETURN_ERROR_NUMBER_PROCESS(ret, BINLOG_ID16274, "Write fail");
+    if (!ctx->recCtx->isPendingSent) {
+        ret = REC_Write(ctx, recordType, data, sendLen);
+        if (ret != HITLS_SUCCESS) {
+            return RETURN_ERROR_NUMBER_PROCESS(ret, BINLOG_ID16274, "Write fail");
+        }
     }
 #ifdef HITLS_TLS_FEATURE_FLIGHT
     if (ctx->config.tlsConfig.isFlightTransmitEnable) {
@@ -141,5 +143,6 @@ int32_t APP_Write(TLS_Ctx *ctx, uint8_t recordType, const uint8_t *data, uint32_
     ctx->recCtx->pendingData = NULL;
     ctx->recCtx->pendingDataSize = 0;
     ctx->recCtx->pendingRecordType = 0;
+    ctx->recCtx->isPendingSent = false;
     return HITLS_SUCCESS;
 }
\ No newline at end of file
diff --git a/tls/record/src/rec_write.c b/tls/record/src/rec_write.c
index 3772fe1..7c3d9ec 100644
--- a/tls/record/src/rec_write.c
+++ b/tls/record/src/rec_write.c
@@ -603,7 +603,16 @@ int32_t TlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, u
     RecBuf *writeBuf = ctx->recCtx->outBuf;
     /* Check whether the cache exists */
     if (writeBuf->end > writeBuf->start) {
-        return SendRecord(ctx, ctx->recCtx, state, state->seq, recordType);
+        if (ctx->recCtx->outBufRecordType != REC_TYPE_APP || recordType == REC_TYPE_APP) {
+            return SendRecord(ctx, ctx->recCtx, state, state->seq, recordType);
+        }
+        /* The cached record belongs to an unfinished application write: send it first, then this message.
+         * The record type REC_TYPE_HANDSHAKE keeps the outbuffer in HITLS_MODE_RELEASE_BUFFERS mode */
+        ret = SendRecord(ctx, ctx->recCtx, state, state->seq, REC_TYPE_HANDSHAKE);
+        if (ret != HITLS_SUCCESS) {
+            return ret;
+        }
+        ctx->recCtx->isPendingSent = (ctx->recCtx->pendingData != NULL);
     }
     const RecCryptoFunc *funcs = RecGetCryptoFuncs(state->suiteInfo);
     ret = funcs->encryptPreProcess(ctx, recordType, data, num, &recPlaintext);
@@ -639,6 +648,7 @@ int32_t TlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, u
                               ctx->config.tlsConfig.msgArg);
 #endif
     OutbufUpdate(&writeBuf->start, 0, &writeBuf->end, outBufLen);
+    ctx->recCtx->outBufRecordType = (uint8_t)recordType;
 
     return SendRecord(ctx, ctx->recCtx, state, state->seq, recordType);
 }
diff --git a/tls/record/src/record.h b/tls/record/src/record.h
index 5c7afa5..96c51dc 100644
--- a/tls/record/src/record.h
+++ b/tls/record/src/record.h
@@ -134,6 +134,8 @@ typedef struct RecCtx {
     uint32_t pendingDataSize; /* Data length */
     const uint8_t *pendingData; /* Plain Data content */
     uint8_t pendingRecordType; /* pending record type */
+    uint8_t outBufRecordType; /* type of the record kept in outBuf */
+    bool isPendingSent; /* the record of the pending data left with a later record, the write is still to be reported */
 } RecCtx;
 
 /**
-- 
2.43.0


From 2acee4144ea350dd12de11c76bb7aa80bd389320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 18/42] fix: a server does not send ALPN in a renegotiation

---
 tls/handshake/pack/src/pack_extensions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls/handshake/pack/src/pack_extensions.c b/tls/handshake/pack/src/pack_extensions.c
index b3e8303..a8cc590 100644
--- a/tls/handshake/pack/src/pack_extensions.c
+++ b/tls/handshake/pack/src/pack_extensions.c
@@ -1103,7 +1103,8 @@ int32_t PackServerSelectAlpnProto(const TLS_Ctx *ctx, PackPacket *pkt)
     uint16_t exMsgHeaderLen = 0u;
     uint16_t exMsgDataLen = 0u;
 
-    if (ctx->negotiatedInfo.alpnSelectedSize == 0) {
+    /* The client does not offer ALPN again in a renegotiation */
+    if (ctx->negotiatedInfo.alpnSelectedSize == 0 || ctx->state == CM_STATE_RENEGOTIATION) {
         return HITLS_SUCCESS;
     }
 
-- 
2.43.0


From 161bbcd50ba693f8c7b3b60f93f8ff1f2cf18e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:07 +0000
Subject: [PATCH 19/42] fix: ML-KEM key generation leaves no key behind when
 the random source fails

---
 crypto/mlkem/src/ml_kem.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypto/mlkem/src/ml_kem.c b/crypto/mlkem/src/ml_kem.c
index 4913aad..eeeb0c8 100644
--- a/crypto/mlkem/src/ml_kem.c
+++ b/crypto/mlkem/src/ml_kem.c
@@ -671,9 +671,6 @@ int32_t CRYPT_ML_KEM_GenKey(CRYPT_ML_KEM_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(CRYPT_MLKEM_KEYINFO_NOT_SET);
         return CRYPT_MLKEM_KEYINFO_NOT_SET;
     }
-    if (MlKemCreateKeyBuf(ctx) != CRYPT_SUCCESS) {
-        return CRYPT_MEM_ALLOC_FAIL;
-    }
     uint8_t seed[MLKEM_SEED_LEN * 2];
     int32_t ret = CRYPT_RandEx(ctx->libCtx, seed, MLKEM_SEED_LEN * 2);
     if (ret != CRYPT_SUCCESS) {
@@ -681,6 +678,10 @@ int32_t CRYPT_ML_KEM_GenKey(CRYPT_ML_KEM_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
+    if (MlKemCreateKeyBuf(ctx) != CRYPT_SUCCESS) {
+        BSL_SAL_CleanseData(seed, sizeof(seed));
+        return CRYPT_MEM_ALLOC_FAIL;
+    }
 
     ret = MLKEM_KeyGenInternal(ctx, seed, seed + MLKEM_SEED_LEN);
     if (ret != CRYPT_SUCCESS) {
-- 
2.43.0


From b8cecf42ccac64e7ee535a99df67bd596b6f6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:07 +0000
Subject: [PATCH 20/42] fix: ML-DSA key generation leaves no uninitialised key
 behind on failure

---
 crypto/mldsa/src/ml_dsa.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crypto/mldsa/src/ml_dsa.c b/crypto/mldsa/src/ml_dsa.c
index 0314d20..43d65ba 100644
--- a/crypto/mldsa/src/ml_dsa.c
+++ b/crypto/mldsa/src/ml_dsa.c
@@ -376,17 +376,25 @@ int32_t CRYPT_ML_DSA_GenKey(CRYPT_ML_DSA_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(CRYPT_MLDSA_KEYINFO_NOT_SET);
         return CRYPT_MLDSA_KEYINFO_NOT_SET;
     }
-    if (MLDSACreateKeyBuf(ctx) != CRYPT_SUCCESS) {
-        return CRYPT_MEM_ALLOC_FAIL;
-    }
     uint8_t seed[MLDSA_SEED_BYTES_LEN];
     int32_t ret = CRYPT_RandEx(ctx->libCtx, seed, MLDSA_SEED_BYTES_LEN);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
+    if (MLDSACreateKeyBuf(ctx) != CRYPT_SUCCESS) {
+        BSL_SAL_CleanseData(seed, MLDSA_SEED_BYTES_LEN);
+        return CRYPT_MEM_ALLOC_FAIL;
+    }
     ret = MLDSA_KeyGenInternal(ctx, seed);
     BSL_SAL_CleanseData(seed, MLDSA_SEED_BYTES_LEN);
+    if (ret != CRYPT_SUCCESS) {
+        BSL_SAL_FREE(ctx->pubKey);
+        ctx->pubLen = 0;
+        BSL_SAL_ClearFree(ctx->prvKey, ctx->prvLen);
+        ctx->prvKey = NULL;
+        ctx->prvLen = 0;
+    }
     return ret;
 }
 
-- 
2.43.0


From f3eee3f36ea470410722b1d1a93ef1403fa0e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:07 +0000
Subject: [PATCH 21/42] fix: McEliece key generation leaves no zeroed key
 behind on failure

---
 crypto/mceliece/src/mceliece.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crypto/mceliece/src/mceliece.c b/crypto/mceliece/src/mceliece.c
index 5867a9e..36a9e4c 100644
--- a/crypto/mceliece/src/mceliece.c
+++ b/crypto/mceliece/src/mceliece.c
@@ -442,9 +442,19 @@ int32_t CRYPT_MCELIECE_Gen(CRYPT_MCELIECE_Ctx *ctx)
     int32_t ret = CRYPT_RandEx(ctx->libCtx, delta, MCELIECE_L_BYTES);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
-        return ret;
+        goto ERR;
+    }
+    ret = SeededKeyGenInternal(delta, ctx->publicKey, ctx->privateKey, ctx->para, ctx->para->semi != 0);
+    if (ret != CRYPT_SUCCESS) {
+        goto ERR;
     }
-    return SeededKeyGenInternal(delta, ctx->publicKey, ctx->privateKey, ctx->para, ctx->para->semi != 0);
+    return CRYPT_SUCCESS;
+ERR:
+    PublicKeyFree(ctx->publicKey);
+    ctx->publicKey = NULL;
+    PrivateKeyFree(ctx->privateKey, ctx->para);
+    ctx->privateKey = NULL;
+    return ret;
 }
 
 static int32_t McelieceParsePrvKey(uint8_t *prvKeyBuf, CMPrivateKey *sk, const McelieceParams *params)
-- 
2.43.0


From 02fadb00d85f81d38a588eb4d697ae33f9a727e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 22/42] fix: RSA private operations work again after blinding
 set-up once failed

---
 crypto/rsa/src/rsa_encdec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 98cee79..a089465 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -290,6 +290,11 @@ static int32_t RSA_InitBlind(CRYPT_RSA_Ctx *ctx, BN_Optimizer *opt)
     if (needDestoryE) {
         BN_Destroy(e);
     }
+    if (ret != CRYPT_SUCCESS) {
+        // Do not leave an uninitialized blinding context behind.
+        RSA_BlindFreeCtx(ctx->scBlind);
+        ctx->scBlind = NULL;
+    }
     return ret;
 }
 
-- 
2.43.0


From 8d21e75ec151919df14502c65da16f0ef441281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 23/42] fix: Paillier lengths follow the modulus, not the
 parameter, once there is a key

---
 crypto/paillier/src/paillier_keygen.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypto/paillier/src/paillier_keygen.c b/crypto/paillier/src/paillier_keygen.c
index 78bc1af..13885bf 100644
--- a/crypto/paillier/src/paillier_keygen.c
+++ b/crypto/paillier/src/paillier_keygen.c
@@ -317,15 +317,16 @@ uint32_t CRYPT_PAILLIER_GetBits(const CRYPT_PAILLIER_Ctx *ctx)
     if (ctx == NULL) {
         return 0;
     }
-    if (ctx->para != NULL) {
-        return ctx->para->bits;
-    }
+    // The length of the modulus; the bits in the parameters are those of p and q.
     if (ctx->prvKey != NULL) {
         return BN_Bits(ctx->prvKey->n);
     }
     if (ctx->pubKey != NULL) {
         return BN_Bits(ctx->pubKey->n);
     }
+    if (ctx->para != NULL) {
+        return ctx->para->bits;
+    }
     return 0;
 }
 
-- 
2.43.0


From bdbd5da189da08e67d4748cf45cf261193349ef8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:39:36 +0000
Subject: [PATCH 24/42] fix: a failed public key calculation keeps the EC key's
 previous public key

---
 crypto/ecc/src/ecc_pkey.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crypto/ecc/src/ecc_pkey.c b/crypto/ecc/src/ecc_pkey.c
index 23d755e..ea7ea7f 100644
--- a/crypto/ecc/src/ecc_pkey.c
+++ b/crypto/ecc/src/ecc_pkey.c
@@ -349,15 +349,21 @@ static int32_t GenPublicKey(ECC_Pkey *ctx)
         return CRYPT_NULL_INPUT;
     }
 
-    if (ctx->pubkey == NULL) {
-        ctx->pubkey = ECC_NewPoint(ctx->para);
-        if (ctx->pubkey == NULL) {
-            BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
-            return CRYPT_MEM_ALLOC_FAIL;
-        }
+    // An existing public key is replaced only when the calculation succeeds.
+    ECC_Point *pubkey = ECC_NewPoint(ctx->para);
+    if (pubkey == NULL) {
+        BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
+        return CRYPT_MEM_ALLOC_FAIL;
     }
 
-    return ECC_PointMul(ctx->para, ctx->pubkey, ctx->prvkey, NULL);
+    int32_t ret = ECC_PointMul(ctx->para, pubkey, ctx->prvkey, NULL);
+    if (ret != CRYPT_SUCCESS) {
+        ECC_FreePoint(pubkey);
+        return ret;
+    }
+    ECC_FreePoint(ctx->pubkey);
+    ctx->pubkey = pubkey;
+    return CRYPT_SUCCESS;
 }
 
 int32_t ECC_PkeyGen(ECC_Pkey *ctx)
-- 
2.43.0


From 24a207535700bacfd06d4da8283a14f238afa0ff Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 25/42] fix: memory shortage while matching provider attributes
 is not taken for a missing algorithm

---
 .../provider/src/mgr/crypt_provider_compare.c | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crypto/provider/src/mgr/crypt_provider_compare.c b/crypto/provider/src/mgr/crypt_provider_compare.c
index ffdcb2a..82aa031 100644
--- a/crypto/provider/src/mgr/crypt_provider_compare.c
+++ b/crypto/provider/src/mgr/crypt_provider_compare.c
@@ -327,7 +327,7 @@ static int32_t CompareAttributeValue(AttributeValue *value, AttributeValue *hash
 }
 
 static int32_t CompareAttribute(BSL_HASH_Hash *hash, const char *attribute,
-    uint32_t mustAttributeNum, uint32_t attributeNum)
+    uint32_t mustAttributeNum, uint32_t attributeNum, bool *memFail)
 {
     int32_t ret;
     int32_t startPos = 0;
@@ -340,6 +340,7 @@ static int32_t CompareAttribute(BSL_HASH_Hash *hash, const char *attribute,
     while (attribute[startPos] != '\0') {
         ret = ParseAttributeValue(attribute, &startPos, &key, &value);
         if (ret != CRYPT_SUCCESS) {
+            *memFail = (ret == CRYPT_MEM_ALLOC_FAIL);
             break;
         }
 
@@ -378,7 +379,7 @@ static int32_t CompareAttribute(BSL_HASH_Hash *hash, const char *attribute,
     return totalScore;
 }
 
-static void FindHighestScoreFunc(CRYPT_EAL_LibCtx *localCtx, int32_t operaId, int32_t algId,
+static int32_t FindHighestScoreFunc(CRYPT_EAL_LibCtx *localCtx, int32_t operaId, int32_t algId,
     InputAttributeStrInfo attrInfo, const CRYPT_EAL_Func **implFunc, CRYPT_EAL_ProvMgrCtx **mgrCtx)
 {
     int32_t ret;
@@ -405,10 +406,14 @@ static void FindHighestScoreFunc(CRYPT_EAL_LibCtx *localCtx, int32_t operaId, in
             if (attribute == NULL) {
                 *implFunc = algInfos[index].implFunc;
                 *mgrCtx = node;
-                return;
+                return CRYPT_SUCCESS;
             }
             int32_t tempScore;
-            tempScore = CompareAttribute(hash, algInfos[index].attr, mustAttributeNum, attributeNum);
+            bool memFail = false;
+            tempScore = CompareAttribute(hash, algInfos[index].attr, mustAttributeNum, attributeNum, &memFail);
+            if (memFail) {
+                return CRYPT_MEM_ALLOC_FAIL;
+            }
             if (tempScore <= totalScore) {
                 continue;
             }
@@ -418,9 +423,10 @@ static void FindHighestScoreFunc(CRYPT_EAL_LibCtx *localCtx, int32_t operaId, in
             if (repeatFlag) {
                 continue;
             }
-            return;
+            return CRYPT_SUCCESS;
         }
     }
+    return CRYPT_SUCCESS;
 }
 
 static int32_t CRYPT_EAL_CompareAlgAndAttrNoPushError(CRYPT_EAL_LibCtx *localCtx, int32_t operaId,
@@ -446,10 +452,13 @@ static int32_t CRYPT_EAL_CompareAlgAndAttrNoPushError(CRYPT_EAL_LibCtx *localCtx
         return ret;
     }
     
-    FindHighestScoreFunc(localCtx, operaId, algId, attrInfo, &implFunc, &ctx);
+    ret = FindHighestScoreFunc(localCtx, operaId, algId, attrInfo, &implFunc, &ctx);
 
     BSL_SAL_ThreadUnlock(localCtx->lock);
     BSL_HASH_Destroy(attrInfo.hash);
+    if (ret != CRYPT_SUCCESS) {
+        return ret;
+    }
     if (implFunc == NULL) {
         return CRYPT_NOT_SUPPORT;
     }
-- 
2.43.0


From 8955075b015f93f93061b8c71f3971271625fb72 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 26/42] fix: TOTP validation does not accept codes of time
 steps before the first one

---
 auth/otp/src/otp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auth/otp/src/otp.c b/auth/otp/src/otp.c
index 95d3553..12bd0f7 100644
--- a/auth/otp/src/otp.c
+++ b/auth/otp/src/otp.c
@@ -241,6 +241,9 @@ int32_t TotpValidate(HITLS_AUTH_OtpCtx *ctx, const BSL_Param *param, const char
             BSL_ERR_PUSH_ERROR(ret);
             return ret;
         }
+        if (offset < 0 && movingFactor >= (uint64_t)offset) {
+            continue; /* The window starts before the first time step: there is no such step. */
+        }
 
         if (ConstTimeMemcmp((const uint8_t *)otp, (const uint8_t *)targetOtp, otpLen) != 0) {
             if (matched != NULL) {
-- 
2.43.0


From 7be744c9958a42b2fb246dbe25ddef6b2177fb6e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 27/42] fix: a server accepting both DTLS and DTLCP answers a
 DTLS client with DTLS versions

---
 tls/handshake/pack/src/pack_hello_verify_request.c | 4 ++--
 tls/include/tls.h                                  | 5 +++++
 tls/record/src/rec_write.c                         | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tls/handshake/pack/src/pack_hello_verify_request.c b/tls/handshake/pack/src/pack_hello_verify_request.c
index beeefa5..07b6b98 100644
--- a/tls/handshake/pack/src/pack_hello_verify_request.c
+++ b/tls/handshake/pack/src/pack_hello_verify_request.c
@@ -37,9 +37,9 @@ int32_t PackHelloVerifyRequest(const TLS_Ctx *ctx, PackPacket *pkt)
         return HITLS_PACK_COOKIE_ERR;
     }
 
-    /* assemble the version, the version is fixed to dtls1.0 */
+    /* assemble the version, the version is fixed to dtls1.0, unless the client speaks dtlcp */
     uint16_t version = HITLS_VERSION_DTLS10;
-    if (IS_SUPPORT_TLCP(ctx->config.tlsConfig.originVersionMask)) {
+    if (IS_DTLCP_HELLO(ctx)) {
         version = HITLS_VERSION_TLCP_DTLCP11;
     }
 
diff --git a/tls/include/tls.h b/tls/include/tls.h
index 4be6616..9f03ac7 100644
--- a/tls/include/tls.h
+++ b/tls/include/tls.h
@@ -47,6 +47,11 @@ extern "C" {
 #define IS_SUPPORT_TLCP(versionBits) (((versionBits) & TLCP_VERSION_BITS) != 0x0u)
 #define IS_SUPPORT_TLS(versionBits) (((versionBits) & TLS_VERSION_MASK) != 0x0u)
 #define IS_SUPPORT_DTLS(versionBits) (((versionBits) & DTLS_VERSION_MASK) != 0x0u)
+/* Before the version is negotiated: whether the hello exchanged is one of DTLCP. A configuration can enable both DTLS and
+   DTLCP, a DTLS peer drops what carries the DTLCP version. */
+#define IS_DTLCP_HELLO(ctx) (((ctx)->negotiatedInfo.clientVersion == HITLS_VERSION_TLCP_DTLCP11) || \
+    (IS_SUPPORT_TLCP((ctx)->config.tlsConfig.originVersionMask) && \
+    !IS_SUPPORT_DTLS((ctx)->config.tlsConfig.originVersionMask)))
 #define IS_SUPPORT_DTLS12(versionBits) (((versionBits) & DTLS12_VERSION_BIT) != 0x0u)
 #define IS_SUPPORT_DTLS13(versionBits) (((versionBits) & DTLS13_VERSION_BIT) != 0x0u)
 #define IS_TLS13_FAMILY_CTX(ctx) ((ctx) != NULL && IS_TLS13_FAMILY_VERSION((ctx)->negotiatedInfo.version))
diff --git a/tls/record/src/rec_write.c b/tls/record/src/rec_write.c
index 7c3d9ec..3c3f786 100644
--- a/tls/record/src/rec_write.c
+++ b/tls/record/src/rec_write.c
@@ -156,7 +156,7 @@ void DtlsPlainMsgGenerate(REC_TextInput *plainMsg, const TLS_Ctx *ctx,
 #endif
     if (ctx->negotiatedInfo.version == 0) {
         plainMsg->version = HITLS_VERSION_DTLS10;
-        if (IS_SUPPORT_TLCP(ctx->config.tlsConfig.originVersionMask)) {
+        if (IS_DTLCP_HELLO(ctx)) {
             plainMsg->version = HITLS_VERSION_TLCP_DTLCP11;
         } else if (ctx->config.tlsConfig.maxVersion == HITLS_VERSION_DTLS13) {
             plainMsg->version = HITLS_VERSION_DTLS12;
-- 
2.43.0


From eacd348202aa0caf46cf3b37813b417511a524b3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 28/42] fix: RSA key transport is not negotiated on an RSA-PSS
 certificate

---
 tls/handshake/common/include/hs_cert.h     | 1 +
 tls/handshake/common/src/hs_cert.c         | 3 +++
 tls/handshake/recv/src/recv_client_hello.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/tls/handshake/common/include/hs_cert.h b/tls/handshake/common/include/hs_cert.h
index b9803d8..82e55d9 100644
--- a/tls/handshake/common/include/hs_cert.h
+++ b/tls/handshake/common/include/hs_cert.h
@@ -28,6 +28,7 @@ extern "C" {
 typedef struct {
     /* The server must select the certificate matching the cipher suite. The client has no such restriction. */
     CERT_Type certType;
+    bool isRsaKeyTransport;         /* the key encrypts the premaster secret, which an RSA-PSS key may not do */
     uint16_t *signSchemeList;       /* certificate signature algorithm list */
     uint32_t signSchemeNum;         /* number of certificate signature algorithms */
     uint16_t *ellipticCurveList;    /* EC curve ID list */
diff --git a/tls/handshake/common/src/hs_cert.c b/tls/handshake/common/src/hs_cert.c
index 72d110b..4550bd1 100644
--- a/tls/handshake/common/src/hs_cert.c
+++ b/tls/handshake/common/src/hs_cert.c
@@ -218,6 +218,9 @@ static int32_t CheckCertTypeAndSignScheme(HITLS_Ctx *ctx, const CERT_ExpectInfo
     if (ret != HITLS_SUCCESS) {
         return ret;
     }
+    if (expectCertInfo->isRsaKeyTransport && keyType == TLS_CERT_KEY_TYPE_RSA_PSS) {
+        return HITLS_MSG_HANDLE_UNSUPPORT_CERT;
+    }
 
     if (signCheck == true) {
         ret = CheckSignScheme(ctx, expectCertInfo->signSchemeList, expectCertInfo->signSchemeNum,
diff --git a/tls/handshake/recv/src/recv_client_hello.c b/tls/handshake/recv/src/recv_client_hello.c
index 26ab4d1..b7a6854 100644
--- a/tls/handshake/recv/src/recv_client_hello.c
+++ b/tls/handshake/recv/src/recv_client_hello.c
@@ -256,6 +256,8 @@ static int32_t HsServerSelectCert(TLS_Ctx *ctx, const ClientHelloMsg *clientHell
     uint16_t signHashAlgo = cipherInfo->signScheme;
     CERT_ExpectInfo expectCertInfo = {0};
     expectCertInfo.certType = CFG_GetCertTypeByCipherSuite(cipherInfo->cipherSuite);
+    expectCertInfo.isRsaKeyTransport = (cipherInfo->kxAlg == HITLS_KEY_EXCH_RSA ||
+        cipherInfo->kxAlg == HITLS_KEY_EXCH_RSA_PSK);
 
     /* For TLCP1.1, ignore the signature extension of client hello */
     if (clientHello->extension.content.signatureAlgorithms != NULL &&
-- 
2.43.0


From 0bee7526eb579669f371b501234278f0c811aa96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 29/42] fix: a close_notify that was blocked does not close the
 receiving side

---
 tls/cm/src/conn_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls/cm/src/conn_common.c b/tls/cm/src/conn_common.c
index 5ae2cbf..e03417b 100644
--- a/tls/cm/src/conn_common.c
+++ b/tls/cm/src/conn_common.c
@@ -189,6 +189,7 @@ int32_t CommonEventInAlertingState(HITLS_Ctx *ctx)
 #ifdef HITLS_TLS_PROTO_CLOSE_STATE
     /* If the close_notify message is sent, the link must be disconnected */
     if (alertInfo.description == ALERT_CLOSE_NOTIFY) {
+        CM_State alertingPreState = ctx->preState;
         if (ctx->userShutDown) {
             ChangeConnState(ctx, CM_STATE_CLOSED);
         } else {
@@ -197,7 +198,7 @@ int32_t CommonEventInAlertingState(HITLS_Ctx *ctx)
         ctx->shutdownState |= HITLS_SENT_SHUTDOWN;
         /* If the previous state of alerting is not transporting, the link should be directly closed and read and
          * write are not allowed. */
-        if (ctx->preState != CM_STATE_TRANSPORTING) {
+        if (alertingPreState != CM_STATE_TRANSPORTING) {
             ctx->shutdownState |= HITLS_RECEIVED_SHUTDOWN;
         }
         return HITLS_SUCCESS;
-- 
2.43.0


From 234bdccf37b03d6d66cbe900717084cb7b3db01a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 30/42] fix: a fatal alert after the own close is not reported
 as an orderly closure

---
 tls/cm/src/conn_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls/cm/src/conn_read.c b/tls/cm/src/conn_read.c
index 641fa2d..b79906a 100644
--- a/tls/cm/src/conn_read.c
+++ b/tls/cm/src/conn_read.c
@@ -483,8 +483,8 @@ static int32_t ReadEventInClosedState(HITLS_Ctx *ctx, uint8_t *data, uint32_t bu
         if (alertRet != HITLS_SUCCESS) {
             return alertRet;
         }
-        /* Other warning alerts have been processed. */
-        if ((ctx->shutdownState & HITLS_RECEIVED_SHUTDOWN) == 0) {
+        /* Other warning alerts have been processed. A fatal alert is not an orderly closure. */
+        if ((ctx->shutdownState & HITLS_RECEIVED_SHUTDOWN) == 0 || ctx->state == CM_STATE_ALERTED) {
             return ret;
         }
     }
-- 
2.43.0


From 3ef294890448aa07424831e8975cc1dd1e845186 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 31/42] fix: adding microseconds to a date no longer wraps at
 2^32

---
 bsl/sal/src/sal_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsl/sal/src/sal_time.c b/bsl/sal/src/sal_time.c
index f51062c..328d4e4 100644
--- a/bsl/sal/src/sal_time.c
+++ b/bsl/sal/src/sal_time.c
@@ -205,10 +205,10 @@ int32_t BSL_DateTimeAddUs(BSL_TIME *dateR, const BSL_TIME *dateA, uint32_t us)
     }
 
     /* Convert the increased time to seconds */
-    uint32_t microSec = us + dateA->microSec;
-    uint32_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
+    uint64_t microSec = (uint64_t)us + dateA->microSec;
+    uint64_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
     microSec %= BSL_SECOND_TRANSFER_RATIO;
-    uint32_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
+    uint64_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
     millSec %= BSL_SECOND_TRANSFER_RATIO;
 
     /* Convert to the date after the number of seconds is added */
-- 
2.43.0


From 8b02bb0f4783ebcac10569b8364345935df604f7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 32/42] fix: an empty label in a certificate name pattern no
 longer matches any host label

---
 pki/x509_common/src/hitls_x509_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pki/x509_common/src/hitls_x509_util.c b/pki/x509_common/src/hitls_x509_util.c
index 90c709e..78b4536 100644
--- a/pki/x509_common/src/hitls_x509_util.c
+++ b/pki/x509_common/src/hitls_x509_util.c
@@ -128,7 +128,7 @@ static int32_t MatchWithPartialWildcard(const char *pattern, const char *hostnam
             }
             labelCount++;
         } else {
-            if (pLen > 0 && BSL_SAL_StrcaseCmp(p, h) != 0) {
+            if (BSL_SAL_StrcaseCmp(p, h) != 0) {
                 return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
             }
         }
-- 
2.43.0


From 1c9a72b6943f66157253d3cc8eff8ecd2cbde59f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 33/42] fix: keep full-length DTLS records of block cipher
 suites within the path MTU

---
 tls/record/src/record.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tls/record/src/record.c b/tls/record/src/record.c
index 2c6af6b..5400e3f 100644
--- a/tls/record/src/record.c
+++ b/tls/record/src/record.c
@@ -903,8 +903,8 @@ int32_t REC_GetMaxDataMtu(const TLS_Ctx *ctx, uint32_t *len)
         protectedPlainOverhead = REC_TLS13_INNER_CONTENT_TYPE_LEN;
     }
 #endif
-    uint32_t encryptLen = RecGetCryptoFuncs(currentState->suiteInfo)->calCiphertextLen(
-        ctx, currentState->suiteInfo, protectedPlainOverhead, false);
+    const RecCryptoFunc *funcs = RecGetCryptoFuncs(currentState->suiteInfo);
+    uint32_t encryptLen = funcs->calCiphertextLen(ctx, currentState->suiteInfo, protectedPlainOverhead, false);
     overHead = headerLen + encryptLen;
     if (ctx->config.pmtu <= overHead) {
         BSL_LOG_BINLOG_FIXLEN(BINLOG_ID17306, BSL_LOG_LEVEL_ERR, BSL_LOG_BINLOG_TYPE_RUN, "pmtu too small", 0, 0, 0, 0);
@@ -913,6 +913,11 @@ int32_t REC_GetMaxDataMtu(const TLS_Ctx *ctx, uint32_t *len)
     }
 
     *len = ctx->config.pmtu - overHead;
+    /* The padding of block ciphers depends on the length, a full-length record must not exceed the PMTU either. */
+    while (*len > 0 && headerLen + funcs->calCiphertextLen(ctx, currentState->suiteInfo,
+        *len + protectedPlainOverhead, false) > ctx->config.pmtu) {
+        (*len)--;
+    }
     return HITLS_SUCCESS;
 }
 #endif /* HITLS_TLS_PROTO_DATAGRAM && HITLS_BSL_UIO_UDP */
-- 
2.43.0


From 26b58bf38409a48f31af2a7c5c6ba2587f5ab916 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 34/42] fix: decode ASN.1 times into a cleared structure

BSL_ASN1_DecodePrimitiveItem left the sub-second fields of the caller's
BSL_TIME untouched and then validated them, so reading the invalidity
date of a parsed CRL entry failed or not depending on stale memory.
---
 bsl/asn1/src/bsl_asn1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsl/asn1/src/bsl_asn1.c b/bsl/asn1/src/bsl_asn1.c
index d28a88f..638c61a 100644
--- a/bsl/asn1/src/bsl_asn1.c
+++ b/bsl/asn1/src/bsl_asn1.c
@@ -248,6 +248,8 @@ static int32_t ParseTime(uint8_t tag, uint8_t *val, uint32_t len, BSL_TIME *deco
     if (ret != BSL_SUCCESS) {
         return ret;
     }
+    // The encoding carries no sub-second part, the caller's buffer may hold anything.
+    (void)memset(decodeData, 0, sizeof(BSL_TIME));
     if (tag == BSL_ASN1_TAG_UTCTIME) {
         decodeData->year = (uint16_t)DecodeAsciiNum(&temp, 2); // 2: YY
         if (decodeData->year < 50) {
-- 
2.43.0


From afa3b3bbf313628a28b353957dbf8b9de901a876 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 35/42] fix: send decode_error for malformed supported_versions
 and ticket extensions in TLS 1.3 client messages

---
 tls/handshake/parse/src/parse_extensions_client.c  | 5 +----
 tls/handshake/parse/src/parse_new_session_ticket.c | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/tls/handshake/parse/src/parse_extensions_client.c b/tls/handshake/parse/src/parse_extensions_client.c
index 579e3a1..b92294f 100644
--- a/tls/handshake/parse/src/parse_extensions_client.c
+++ b/tls/handshake/parse/src/parse_extensions_client.c
@@ -156,10 +156,7 @@ static int32_t ParseServerSupportedVersions(ParsePacket *pkt, ServerHelloMsg *ms
     }
     int32_t ret = ParseBytesToUint16(pkt, &msg->supportedVersion);
     if (ret != HITLS_SUCCESS || pkt->bufLen != *pkt->bufOffset) {
-        BSL_LOG_BINLOG_FIXLEN(BINLOG_ID16985, BSL_LOG_LEVEL_ERR, BSL_LOG_BINLOG_TYPE_RUN,
-            "ParseBytesToUint16 fail, ret %d", ret, 0, 0, 0);
-        BSL_ERR_PUSH_ERROR(HITLS_PARSE_INVALID_MSG_LEN);
-        return HITLS_PARSE_INVALID_MSG_LEN;
+        return ParseErrorExtLengthProcess(pkt->ctx, BINLOG_ID16985, BINGLOG_STR("ServerSupportedVersions"));
     }
 
     msg->haveSupportedVersion = true;
diff --git a/tls/handshake/parse/src/parse_new_session_ticket.c b/tls/handshake/parse/src/parse_new_session_ticket.c
index 7c08e1b..f8ac675 100644
--- a/tls/handshake/parse/src/parse_new_session_ticket.c
+++ b/tls/handshake/parse/src/parse_new_session_ticket.c
@@ -91,7 +91,7 @@ static int32_t ParseNewSessionTicketExtension(TLS_Ctx *ctx, const uint8_t *buf,
         }
         bufOffset += HS_EX_HEADER_LEN;
         if (bufLen - bufOffset < extMsgLen) {
-            return HITLS_PARSE_INVALID_MSG_LEN;
+            return ParseErrorProcess(ctx, HITLS_PARSE_INVALID_MSG_LEN, 0, NULL, ALERT_DECODE_ERROR);
         }
         uint32_t hsExTypeId = HS_GetExtensionTypeId(extMsgType);
 #ifdef HITLS_TLS_FEATURE_CUSTOM_EXTENSION
-- 
2.43.0


From 8769553af11f7a5ca34f50bcb4b5086faf78c591 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 36/42] fix: SignedData is version 3 when any SignerInfo is
 version 3 (RFC 5652 section 5.1)

---
 pki/cms/src/hitls_cms_signdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pki/cms/src/hitls_cms_signdata.c b/pki/cms/src/hitls_cms_signdata.c
index e54051a..62f69af 100644
--- a/pki/cms/src/hitls_cms_signdata.c
+++ b/pki/cms/src/hitls_cms_signdata.c
@@ -892,11 +892,11 @@ static int32_t CheckSignerInfosVersion(CMS_SignerInfos *signerInfo)
     for (BslListNode *infoNode = BSL_LIST_FirstNode(signerInfo); infoNode != NULL;
         infoNode = BSL_LIST_GetNextNode(signerInfo, infoNode)) {
         CMS_SignerInfo *signerInfoItem = (CMS_SignerInfo *)BSL_LIST_GetData(infoNode);
-        if (signerInfoItem->version != HITLS_CMS_SIGNEDDATA_SIGNERINFO_V3) {
-            return 0;
+        if (signerInfoItem->version == HITLS_CMS_SIGNEDDATA_SIGNERINFO_V3) {
+            return HITLS_CMS_SIGNEDDATA_SIGNERINFO_V3;
         }
     }
-    return HITLS_CMS_SIGNEDDATA_SIGNERINFO_V3;
+    return 0;
 }
 
 /* according to the RFC 5652, the version of signed data is determined by the following rules:
-- 
2.43.0


From 3cff2ea8784ddb5f675f9c7e38ede548d338b71e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 37/42] fix: encode SPAKE2+ w0 and w1 at the length of the
 group order (RFC 9383 section 3.3)

---
 auth/pake/spake2plus/src/spake2plus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auth/pake/spake2plus/src/spake2plus.c b/auth/pake/spake2plus/src/spake2plus.c
index 2b56552..c1cf003 100644
--- a/auth/pake/spake2plus/src/spake2plus.c
+++ b/auth/pake/spake2plus/src/spake2plus.c
@@ -336,7 +336,8 @@ int32_t HITLS_AUTH_Spake2plusReqRegister(HITLS_AUTH_PakeCtx* ctx, CRYPT_EAL_KdfC
     if (ret != HITLS_AUTH_SUCCESS) {
         goto ERR;
     }
-    ret = BN_Bn2Bin(result, w0_data, &w0_dataLen);
+    w0_dataLen = nLen;
+    ret = BN_Bn2BinFixZero(result, w0_data, w0_dataLen);
     if (ret != HITLS_AUTH_SUCCESS) {
         goto ERR;
     }
@@ -344,7 +345,8 @@ int32_t HITLS_AUTH_Spake2plusReqRegister(HITLS_AUTH_PakeCtx* ctx, CRYPT_EAL_KdfC
     if (ret != HITLS_AUTH_SUCCESS) {
         goto ERR;
     }
-    ret = BN_Bn2Bin(result, w1_data, &w1_dataLen);
+    w1_dataLen = nLen;
+    ret = BN_Bn2BinFixZero(result, w1_data, w1_dataLen);
     if (ret != HITLS_AUTH_SUCCESS) {
         goto ERR;
     }
-- 
2.43.0


From d80064d5b209c1df1f4f292530d6756aac00bd59 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 38/42] fix: SM9 accept every valid master signing public key

The curve check of G2 points compared values that are not reduced below q,
so valid imported public keys were refused.
---
 crypto/sm9/src/sm9_ecp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/sm9/src/sm9_ecp2.c b/crypto/sm9/src/sm9_ecp2.c
index 192d1e7..f53b7d6 100644
--- a/crypto/sm9/src/sm9_ecp2.c
+++ b/crypto/sm9/src/sm9_ecp2.c
@@ -195,6 +195,12 @@ int32_t SM9_Ecp2_A_Check(SM9_ECP2_A *pAp)
     SM9_Fp2_Add(&Fp2_tmp2, &Fp2_x3, &Fp2_tmp2);  // tmp2 = x^3 + a*x
     SM9_Fp2_Add(&Fp2_tmp2, &Fp2_tmp2, &sm9_sys_para.EC_Fp2_B_Mont);
 
+    // The field operations do not always reduce below q
+    SM9_Fp_LastRes(Fp2_tmp1.Coef_0);
+    SM9_Fp_LastRes(Fp2_tmp1.Coef_1);
+    SM9_Fp_LastRes(Fp2_tmp2.Coef_0);
+    SM9_Fp_LastRes(Fp2_tmp2.Coef_1);
+
     // Check y^2 == x^3 + a*x + b
     if (bn_equal(Fp2_tmp1.Coef_0, Fp2_tmp2.Coef_0, sm9_sys_para.wsize) == 0
         || bn_equal(Fp2_tmp1.Coef_1, Fp2_tmp2.Coef_1, sm9_sys_para.wsize) == 0) {
-- 
2.43.0


From e6f8e47118cb9fac30e72d452c75bd3ead6d636f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 39/42] fix: SM9 refuse user key extraction when H1(ID) + k is
 zero modulo N

The sum was not reduced before the zero test, so the point at infinity was
handed out as a user key.
---
 crypto/sm9/src/sm9.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypto/sm9/src/sm9.c b/crypto/sm9/src/sm9.c
index 48d65bd..1b8a612 100644
--- a/crypto/sm9/src/sm9.c
+++ b/crypto/sm9/src/sm9.c
@@ -278,6 +278,7 @@ int32_t SM9_Alg_USKG(const uint8_t *id, uint32_t ilen, uint8_t *ks, uint8_t *ds)
     // Compute t1 = H1(IDA||hid, N)+ks
     SM9_Hash_H1(BN_t1, id, ilen, SM9_HID_Sign, 1);
     SM9_Fn_Add(BN_t1, BN_t1, BN_t2);
+    SM9_Fn_LastRes(BN_t1);
     // Check t1 != 0
     if (SM9_Bn_IsZero(BN_t1))
         return CRYPT_SM9_ERR_KEY_ERR;
@@ -547,6 +548,7 @@ int32_t SM9_Alg_UEKG(const uint8_t *id, uint32_t ilen, uint8_t *ke, uint8_t *de)
     // Compute t1 = H1(IDA||hid, N)+ks
     SM9_Hash_H1(BN_t1, id, ilen, SM9_HID_Enc, 1);
     bn_mod_add(BN_t1, BN_t1, BN_t2, sm9_sys_para.EC_N, sm9_sys_para.wsize);
+    SM9_Fn_LastRes(BN_t1);
     // Check t1 != 0
     if (bn_is_zero(BN_t1, sm9_sys_para.wsize))
         return CRYPT_SM9_ERR_KEY_ERR;
-- 
2.43.0


From 066691c9d1956f39385d5d7f34ec3a12d081ae4e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 40/42] fix: SM9 refuse signatures whose S is not the canonical
 encoding of a curve point

Coordinates plus q were accepted, so a valid signature could be altered and
still verify; S was not checked to be on the curve either.
---
 crypto/sm9/src/sm9.c     | 3 +++
 crypto/sm9/src/sm9_ecp.c | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/crypto/sm9/src/sm9.c b/crypto/sm9/src/sm9.c
index 1b8a612..21c1468 100644
--- a/crypto/sm9/src/sm9.c
+++ b/crypto/sm9/src/sm9.c
@@ -498,6 +498,9 @@ int32_t SM9_Verify(
     sign += sm9_sys_para.wsize*WordByteLen;
     if (SM9_Fp_ECP_A_ReadBytesWithPC(&Ecp_s, opt, sign))
         return -1;
+    // S must be a point of the curve
+    if (SM9_Ecp_A_Check(&Ecp_s))
+        return CRYPT_SM9_VERIFY_FAIL;
 
     ret = _sm9_alg_vefiry(msg, mlen, id, ilen, g, mpk, BN_h, &Ecp_s);
 
diff --git a/crypto/sm9/src/sm9_ecp.c b/crypto/sm9/src/sm9_ecp.c
index d23ecbf..a58e369 100644
--- a/crypto/sm9/src/sm9_ecp.c
+++ b/crypto/sm9/src/sm9_ecp.c
@@ -217,6 +217,11 @@ int32_t SM9_Fp_ECP_A_ReadBytesWithPC(SM9_ECP_A *dst, uint8_t PC, const uint8_t *
     if (PC == 0x00) { // SM9_OPT_DM_MODE0
         ByteToBN(src, BNByteLen, dst->X, BNWordLen);
         ByteToBN(src + BNByteLen, BNByteLen, dst->Y, BNWordLen);
+        // Coordinates must be elements of the field, i.e. in [0, q-1]
+        if (bn_cmp(dst->X, sm9_sys_para.EC_Q, sm9_sys_para.wsize) >= 0 ||
+            bn_cmp(dst->Y, sm9_sys_para.EC_Q, sm9_sys_para.wsize) >= 0) {
+            return -1;
+        }
         bn_mont_mul(dst->X, dst->X, sm9_sys_para.Q_R2, sm9_sys_para.EC_Q, sm9_sys_para.Q_Mc, sm9_sys_para.wsize);
         bn_mont_mul(dst->Y, dst->Y, sm9_sys_para.Q_R2, sm9_sys_para.EC_Q, sm9_sys_para.Q_Mc, sm9_sys_para.wsize);
         return 0;
-- 
2.43.0


From 3b4bf7ba546fc9049cabfd0c7238615228d0f0ff Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:56:43 +0000
Subject: [PATCH 41/42] fix: BSL_ERR_ClearLastMark must end when the error
 stack is full and has no mark

---
 bsl/err/src/err.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bsl/err/src/err.c b/bsl/err/src/err.c
index 674f5b5..e7066a0 100644
--- a/bsl/err/src/err.c
+++ b/bsl/err/src/err.c
@@ -538,7 +538,11 @@ int32_t BSL_ERR_ClearLastMark(void)
         return ret;
     }
 
-    while (errStack->errorStack[top] != 0 && ((errStack->errorFlags[top] & ERR_FLAG_POP_MARK) == 0)) {
+    /* The stack is a ring: when it is full and holds no mark, stop after one turn. */
+    for (uint32_t i = 0; i < SAL_MAX_ERROR_STACK; i++) {
+        if (errStack->errorStack[top] == 0 || (errStack->errorFlags[top] & ERR_FLAG_POP_MARK) != 0) {
+            break;
+        }
         top--;
         if (top >= SAL_MAX_ERROR_STACK) {
             top = SAL_MAX_ERROR_STACK - 1;
-- 
2.43.0


From a92e308289ca4ec998c122b163ddbd7f24652a3d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:13:26 +0000
Subject: [PATCH 42/42] fix: XMSS traversal state can be exported in the second
 half of a tree

---
 crypto/hbs/xmss/src/xmss_bds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/hbs/xmss/src/xmss_bds.c b/crypto/hbs/xmss/src/xmss_bds.c
index b58a862..d0e4eca 100644
--- a/crypto/hbs/xmss/src/xmss_bds.c
+++ b/crypto/hbs/xmss/src/xmss_bds.c
@@ -956,7 +956,8 @@ int32_t XmssBds_TreeRound(XmssBdsState *state, uint32_t leafIdx, uint32_t layer,
     for (uint32_t i = 0; i < restartCount; i++) {
         uint32_t startIdx = leafIdx + 1U + 3U * (1U << i);
         state->treehash[i].height = i;
-        state->treehash[i].nextIdx = startIdx;
+        /* Nothing is left to build beyond the last leaf; keep the index in the range IsStateValid() accepts. */
+        state->treehash[i].nextIdx = startIdx < (1U << hp) ? startIdx : (1U << hp);
         state->treehash[i].stackUsage = 0;
         state->treehash[i].completed = (startIdx >= (1U << hp));
     }
-- 
2.43.0

