From b4b5b54ba04bf88b5bfc7f5336a97c6e3ec8d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 1/7] fix: compare the top limb in field equality

decaf_equal skipped y[15], so two field elements whose difference is a
multiple of 2^420 compared equal.
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From 3ac6707573658fbf1b4930e948afec14ff8cd2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 2/7] fix: reject exactly the non-canonical field encodings
 when decoding

MODULUS was not the modulus in radix 2^28 and the borrow chain was not a
borrow chain: encodings of values >= p were accepted, and some values
below p were refused.
---
 src/bignumber.rs   | 3 +--
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..d97f5c5 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -629,8 +629,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         fill -= RADIX;
         buffer >>= RADIX;
         // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> WORD_BITS;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From 6918a60f76d55fe60648dd56b67bb414430660ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 3/7] fix: reject a set sign bit on an encoded point with x = 0

RFC 8032 5.2.3 step 4: if x = 0 and the sign bit is 1, decoding fails.
---
 src/extended_point.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..4889cec 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,7 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From 0ee17e807acbc1b8be6533c390b54a8d937291a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 4/7] fix: return an error for signatures that are not 114
 bytes long

Shorter signatures made verification panic; bytes after the first 114
were ignored, so an extended signature still verified.
---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..860150d 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -56,6 +56,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
     p2 = p2.point_scalar_mul(&scalar_four);
+    if sig.len() != 114 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let mut sig1: [u8; 57] = [0; 57];
     let mut sig2: [u8; 57] = [0; 57];
 
-- 
2.43.0


From 299f7697eaf90b08097a154f8de95a1dd8587985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 5/7] fix: hash the public key bytes that were presented

Verification hashed a re-encoding of the decoded key, which drops the
torsion component: a signature also verified under encodings of other
points than the signer's key.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 860150d..4cc5d18 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -90,7 +90,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From 662463e6780fbadfca50550ba32342e7e2797517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:53 +0000
Subject: [PATCH 6/7] fix: reject signatures whose S is not below the group
 order

S was silently reduced, so S + L (and S + 2L, ...) verified as well.
---
 src/eddsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 4cc5d18..f994984 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -98,6 +98,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    if encode(&responce_scalar) != sig2 {
+        return Err(LibgoldilockErrors::DecodeSignatureError);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 3cb9e800431214e6af17d94a1ede4068fd6bdba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 7/7] fix: report malformed key strings as deserialization
 errors

Deserialize panicked on strings that are not 114 hex digits.
---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..dacf47f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -184,7 +184,9 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(s, &mut key).map_err(de::Error::custom)?;
+            Ok(SigningKey::from_slice(&key))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +210,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(s, &mut key).map_err(de::Error::custom)?;
+            Ok(SecretKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +236,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(s, &mut key).map_err(de::Error::custom)?;
+            Ok(VerifyingKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0

