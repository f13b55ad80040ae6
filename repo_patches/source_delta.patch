From 3bfa556943f3e489138f75a0fe0cabec37087f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 01/15] fix: refuse signature scalars that are not below the
 group order

The group order was stored most significant byte first but compared least
significant byte first, so S + L was accepted as another valid signature.
---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0


From c153df4dd2d3c43145725426303caea40b6c17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 02/15] fix: refuse global signatures that are not 64 bytes
 long

Shorter ones made verify() panic, longer ones were accepted and their tail
ignored.
---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..6022f83 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,6 +119,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From 78acbde9efdd5ed1f682ca664381653f0955ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 03/15] fix: refuse signatures followed by extra bytes

---
 src/signature.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 181eb69..bcd0117 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read};
 use ct_codecs::{Base64, Encoder};
 
 use crate::constants::*;
-use crate::Result;
+use crate::errors::*;
 
 #[derive(Clone)]
 pub(crate) struct Signature {
@@ -32,7 +32,12 @@ impl Signature {
         buf.read_exact(&mut sig_alg)?;
         buf.read_exact(&mut keynum)?;
         buf.read_exact(&mut sig)?;
-        debug_assert_eq!(buf.position() as usize, Self::BYTES);
+        if bytes_buf.len() != Self::BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid signature length",
+            ));
+        }
         Ok(Signature {
             sig_alg,
             keynum,
-- 
2.43.0


From f745c28dc65c1d5b5aa39f107aa0a4b0fedfaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 04/15] fix: keep leading and trailing blanks of trusted
 comments

They were removed before verification: a genuine signature whose comment has
some did not verify, and comments with blanks added were accepted.
---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 6022f83..1740ea9 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -116,7 +116,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From c4e35dd4edab1debb701db71303826d8942f50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 05/15] fix: refuse comments that do not fit on one line

They corrupted the signature or the secret key they were stored with.
---
 src/helpers.rs    | 11 +++++++++++
 src/lib.rs        |  2 ++
 src/secret_key.rs |  1 +
 3 files changed, 14 insertions(+)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..5c8b30f 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -88,6 +88,17 @@ pub fn get_password(prompt: &str) -> Result<String> {
     }
 }
 
+/// Comments are stored on a single line.
+pub fn check_comment(comment: &str) -> Result<()> {
+    if comment.contains('\n') || comment.ends_with('\r') {
+        return Err(PError::new(
+            ErrorKind::Encoding,
+            "Comments must fit on a single line",
+        ));
+    }
+    Ok(())
+}
+
 pub fn unix_timestamp() -> u64 {
     let start = SystemTime::now();
     let since_the_epoch = start
diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..3d6e6b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,6 +85,8 @@ where
         Some(untrusted_comment) => untrusted_comment.to_string(),
         None => DEFAULT_COMMENT.to_string(),
     };
+    check_comment(&trusted_comment)?;
+    check_comment(&untrusted_comment)?;
     let mut signature = Signature::default();
     signature.sig_alg = SIGALG_PREHASHED;
 
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 721f6be..68fb3ec 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -290,6 +290,7 @@ impl SecretKey {
         let mut s = String::new();
         write!(s, "{COMMENT_PREFIX}")?;
         if let Some(comment) = comment {
+            check_comment(comment)?;
             writeln!(s, "{comment}")?;
         } else {
             writeln!(s, "{SECRETKEY_DEFAULT_COMMENT}")?;
-- 
2.43.0


From 60a91b635c740d74729e6cd0459bef50784216c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 06/15] fix: protect secret keys with empty passwords like with
 any other one

Such a key was stored in the clear while labelled as encrypted, so that it
could not be opened at all.
---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From cc7c7c6a8956a4df9d5fd26b57bce09e4c4904eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 07/15] fix: do not label decrypted secret keys as encrypted

A secret key that was opened with its password and then put into a box again
was stored in the clear but labelled as encrypted, and could not be opened.
---
 src/secret_key.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/secret_key.rs b/src/secret_key.rs
index 68fb3ec..8274588 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -270,6 +270,11 @@ impl SecretKey {
                 ))
             }
         } else {
+            // The key is not encrypted any more.
+            sk.kdf_alg = KDF_NONE;
+            sk.kdf_salt = Default::default();
+            sk.kdf_opslimit_le = Default::default();
+            sk.kdf_memlimit_le = Default::default();
             Ok(sk)
         }
     }
-- 
2.43.0


From 571f9dca1f69a90178759bedfe865ca256b1a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 08/15] fix: retry interrupted reads

An interrupted read is not an error; legacy verification already retried.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d6e6b6..0fb0d85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -46,7 +46,10 @@ where
     let mut buf = vec![0u8; 65536];
     let mut state = Blake2b::new(PREHASH_BYTES);
     loop {
-        let len = data_reader.read(&mut buf)?;
+        let len = match data_reader.read(&mut buf) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            len => len?,
+        };
         if len == 0 {
             break;
         }
@@ -204,7 +207,10 @@ where
         data_reader.rewind()?;
         let mut buf = vec![0; 65536];
         loop {
-            let len = data_reader.read(&mut buf)?;
+            let len = match data_reader.read(&mut buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                len => len?,
+            };
             if len == 0 {
                 break;
             }
-- 
2.43.0


From f69af063ed32f636f6dcfeb1ff36cb58c8d7fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 09/15] fix: output only the data that was verified

With a source that was not at its beginning, the unverified bytes before the
initial position were written as well.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0fb0d85..fb87275 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,7 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -147,6 +147,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -204,7 +209,7 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
+        data_reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; 65536];
         loop {
             let len = match data_reader.read(&mut buf) {
-- 
2.43.0


From 8ba500ef5b0549dedad6dc0bbba38033b7c27bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 10/15] fix: check the identifier of the public key supplied to
 sign()

With another identifier, the signature would not verify with that key.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb87275..9105493 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,7 +106,9 @@ where
     getrandom(&mut z)?;
     let global_sig = ed25519::signature(&sig_and_trusted_comment, &sk.keynum_sk.sk, Some(&z));
     if let Some(pk) = pk {
-        if !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig) {
+        if pk.keynum_pk.keynum != sk.keynum_sk.keynum
+            || !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig)
+        {
             return Err(PError::new(
                 ErrorKind::Verify,
                 format!(
-- 
2.43.0


From 45d27425fbc77f28844a29bbed4b3e4923299f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 11/15] fix: bound the amount of work a secret key file can ask
 for

Only the memory was bounded: a huge opslimit made scrypt run for years, or
was truncated to 32 bits.
---
 src/constants.rs  | 1 +
 src/secret_key.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index 1d7cede..f0e5757 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -26,6 +26,7 @@ pub(crate) const KEYNUM_BYTES: usize = 8;
 pub(crate) const MEMLIMIT: usize = 33_554_432;
 pub(crate) const OPSLIMIT: u64 = 1_048_576;
 pub(crate) const MEMLIMIT_MAX: usize = 1_073_741_824;
+pub(crate) const OPSLIMIT_MAX: u64 = 33_554_432;
 pub(crate) const N_LOG2_MAX: u8 = 20;
 pub(crate) const PASSWORD_MAXBYTES: usize = 1024;
 pub(crate) const PK_B64_ENCODED_LEN: usize = 56;
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 8274588..0e5d006 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -131,7 +131,7 @@ impl SecretKey {
         let mut stream = [0u8; CHK_BYTES + SECRETKEY_BYTES + KEYNUM_BYTES];
         let opslimit = load_u64_le(&self.kdf_opslimit_le);
         let memlimit = load_u64_le(&self.kdf_memlimit_le) as usize;
-        if memlimit > MEMLIMIT_MAX {
+        if memlimit > MEMLIMIT_MAX || opslimit > OPSLIMIT_MAX {
             return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
         }
         let params = raw_scrypt_params(memlimit, opslimit, N_LOG2_MAX)?;
-- 
2.43.0


From d364da38676e46d2b8be3d80a98f9ec661ecc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 12/15] fix: refuse public keys of small order

Only two encodings of such points were refused; with the others, signatures
can be made without any secret key.
---
 src/crypto/curve25519.rs | 6 ++++++
 src/crypto/ed25519.rs    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 5d3e4d7..567e3c7 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -830,6 +830,12 @@ impl GeP3 {
         Some(GeP3 { x, y, z, t })
     }
 
+    /// Does multiplying the point by the cofactor give the neutral element?
+    pub fn has_small_order(&self) -> bool {
+        let p8 = self.dbl().to_p2().dbl().to_p2().dbl().to_p2();
+        !p8.x.is_nonzero()
+    }
+
     fn to_p2(&self) -> GeP2 {
         GeP2 {
             x: self.x,
diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index df11a96..9540156 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -33,7 +33,7 @@ pub fn verify(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
             return false;
         }
     };
-    if public_key.iter().fold(0, |acc, x| acc | x) == 0 {
+    if public_key.iter().fold(0, |acc, x| acc | x) == 0 || a.has_small_order() {
         return false;
     }
 
-- 
2.43.0


From 89aa604310bbeb9b581c4704a90fac9dd1a79e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 13/15] fix: refuse keys followed by extra bytes

---
 src/public_key.rs | 6 ++++++
 src/secret_key.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/public_key.rs b/src/public_key.rs
index 665c88c..7910e5e 100644
--- a/src/public_key.rs
+++ b/src/public_key.rs
@@ -87,6 +87,12 @@ impl PublicKey {
     ///
     /// For storage, a `PublicKeyBox` is usually what you need instead.
     pub fn from_bytes(buf: &[u8]) -> Result<PublicKey> {
+        if buf.len() != TWOBYTES + KEYNUM_BYTES + PUBLICKEY_BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid public key length",
+            ));
+        }
         let mut buf = Cursor::new(buf);
         let mut sig_alg = [0u8; TWOBYTES];
         let mut keynum = [0u8; KEYNUM_BYTES];
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 0e5d006..d5ea8be 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -168,6 +168,12 @@ impl SecretKey {
         buf.read_exact(&mut keynum)?;
         buf.read_exact(&mut sk)?;
         buf.read_exact(&mut chk)?;
+        if buf.position() != bytes_buf.len() as u64 {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid secret key length",
+            ));
+        }
 
         Ok(SecretKey {
             sig_alg,
-- 
2.43.0


From 21d7cf578570245ee3fc7b86a999852b83d96aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 14/15] fix: carry after field additions

The difference of two field elements requires its second operand to be
carried. When a point is doubled, the sum of two squares is subtracted;
for some coordinates the limbs of that sum exceed the ones added to keep
the difference positive, which panics with overflow checks and wraps
around without.
---
 src/crypto/curve25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 567e3c7..169e535 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -468,7 +468,7 @@ impl Add for Fe {
         let Fe(g) = _rhs;
         let mut h = Fe::default();
         fiat_25519_add(&mut h.0, &f, &g);
-        h
+        h.carry()
     }
 }
 
-- 
2.43.0


From 5c1eea0af9c9cfacd8d884cd243487d855fc6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 15/15] fix: keep the conditional selection of field elements
 free of branches

The compiler turned the selection, whose condition is a bit of the secret
scalar in ge_scalarmult_base, into a conditional jump at most optimisation
levels, so that the course of key generation and signing revealed secrets.
---
 src/crypto/curve25519.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 169e535..51bdad0 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -2,6 +2,7 @@
 #![allow(non_camel_case_types)]
 
 use std::cmp::{min, Eq, PartialEq};
+use std::hint::black_box;
 use std::ops::{Add, Mul, Sub};
 
 pub type fiat_25519_u1 = u8;
@@ -40,7 +41,8 @@ pub fn fiat_25519_subborrowx_u51(
 
 #[inline]
 pub fn fiat_25519_cmovznz_u64(out1: &mut u64, arg1: fiat_25519_u1, arg2: u64, arg3: u64) {
-    let x1: fiat_25519_u1 = (!(!arg1));
+    // Without the barrier, the selection can be compiled into a branch on `arg1`.
+    let x1: fiat_25519_u1 = black_box(!(!arg1));
     let x2: u64 = (((((0x0_i8 - (x1 as fiat_25519_i2)) as fiat_25519_i1) as i128)
         & 0xffffffffffffffff_i128) as u64);
     let x3: u64 = ((x2 & arg3) | ((!x2) & arg2));
-- 
2.43.0

