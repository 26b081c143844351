From f814a56fde8a48744ac7d1d9922abb47880e5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 1/2] fix: sponge absorb/squeeze with 4 GiB or longer chunks

The remaining length was truncated to 32 bits and the sum with the queue
position could wrap, so that a chunk of 2^32 - k bytes overflowed the state
and one of 2^32 bytes did not terminate (CVE-2022-37454).
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..308e2ed 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..710c858 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0


From d4428d49c745d6de57f9dd73210a3e44b151e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 2/2] fix: report entropy failure from keygen and sign

rand_bytes returns -1 if the entropy source fails; both callers ignored it
and produced keys and signatures from unfilled buffers.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..fa5ce24 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@) != 0) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho)) != 0) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0

