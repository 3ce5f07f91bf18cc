From a220af7e5594930355212d0e3d602e2a53788e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 1/3] ml-kem: re-export internals under cfg(verif_hooks) for
 verification builds

---
 ml-kem/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ml-kem/src/lib.rs b/ml-kem/src/lib.rs
index 51b98d0..c4bc13e 100644
--- a/ml-kem/src/lib.rs
+++ b/ml-kem/src/lib.rs
@@ -10,6 +10,7 @@
 #![allow(non_snake_case)] // Allow notation matching the spec
 #![allow(clippy::clone_on_copy)] // Be explicit about moving data
 #![deny(missing_docs)] // Require all public interfaces to be documented
+#![allow(unexpected_cfgs)] // `verif_hooks` is only set by verification builds
 
 //! # Usage
 //!
@@ -65,6 +66,20 @@ pub mod kem;
 /// Section 7. Parameter Sets
 mod param;
 
+/// The crate's internals, for verification builds only (`--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use crate::algebra::*;
+    pub use crate::compress::*;
+    pub use crate::crypto::*;
+    pub use crate::encode::*;
+    pub use crate::param::*;
+    pub use crate::pke::*;
+    pub use crate::util::*;
+}
+
 use ::kem::{Decapsulate, Encapsulate};
 use core::fmt::Debug;
 use hybrid_array::{
-- 
2.43.0


From e3a3783929d089a980e76a10807515b455db8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 2/3] fix: ml-kem: keep the stored hash of an imported private
 key out of its encapsulation key

DecapsulationKey::from_bytes put the hash found in the private key's encoding
into the embedded EncapsulationKey. When the stored hash is not that of the
embedded public key, encapsulation_key() then returned a key that compared
unequal to, and encapsulated differently from, the key with the same bytes.
---
 ml-kem/src/kem.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ml-kem/src/kem.rs b/ml-kem/src/kem.rs
index 4abc52a..4075751 100644
--- a/ml-kem/src/kem.rs
+++ b/ml-kem/src/kem.rs
@@ -27,6 +27,7 @@ where
 {
     dk_pke: DecryptionKey<P>,
     ek: EncapsulationKey<P>,
+    h: B32,
     z: B32,
 }
 
@@ -60,10 +61,8 @@ where
 
         Self {
             dk_pke: DecryptionKey::from_bytes(dk_pke),
-            ek: EncapsulationKey {
-                ek_pke,
-                h: h.clone(),
-            },
+            ek: EncapsulationKey::new(ek_pke),
+            h: h.clone(),
             z: z.clone(),
         }
     }
@@ -71,7 +70,7 @@ where
     fn as_bytes(&self) -> Encoded<Self> {
         let dk_pke = self.dk_pke.as_bytes();
         let ek = self.ek.as_bytes();
-        P::concat_dk(dk_pke, ek, self.ek.h.clone(), self.z.clone())
+        P::concat_dk(dk_pke, ek, self.h.clone(), self.z.clone())
     }
 }
 
@@ -93,7 +92,7 @@ where
         encapsulated_key: &EncodedCiphertext<P>,
     ) -> Result<SharedKey, Self::Error> {
         let mp = self.dk_pke.decrypt(encapsulated_key);
-        let (Kp, rp) = G(&[&mp, &self.ek.h]);
+        let (Kp, rp) = G(&[&mp, &self.h]);
         let Kbar = J(&[self.z.as_slice(), encapsulated_key.as_ref()]);
         let cp = self.ek.ek_pke.encrypt(&mp, &rp);
 
@@ -137,8 +136,9 @@ where
     pub(crate) fn generate_deterministic(d: &B32, z: &B32) -> Self {
         let (dk_pke, ek_pke) = DecryptionKey::generate(d);
         let ek = EncapsulationKey::new(ek_pke);
+        let h = ek.h.clone();
         let z = z.clone();
-        Self { dk_pke, ek, z }
+        Self { dk_pke, ek, h, z }
     }
 }
 
-- 
2.43.0


From 92e21246b05457e6be94da2be6a4b64c806137d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 3/3] fix: x-wing: compare the X25519 part of public keys by
 its bytes

x25519_dalek::PublicKey compares values modulo p and ignores the top bit, while
the combiner hashes the bytes. Two public keys with different encodings, for
which encapsulation gives different secrets, compared equal.
---
 x-wing/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x-wing/src/lib.rs b/x-wing/src/lib.rs
index cd24274..c2b2433 100644
--- a/x-wing/src/lib.rs
+++ b/x-wing/src/lib.rs
@@ -68,12 +68,19 @@ pub type SharedSecret = [u8; 32];
 // _x -> x25519 related key
 
 /// X-Wing encapsulation or public key.
-#[derive(Clone, PartialEq)]
+#[derive(Clone)]
 pub struct EncapsulationKey {
     pk_m: MlKem768EncapsulationKey,
     pk_x: x25519_dalek::PublicKey,
 }
 
+impl PartialEq for EncapsulationKey {
+    fn eq(&self, other: &Self) -> bool {
+        // `x25519_dalek::PublicKey` compares field elements, but the combiner hashes the encoding
+        self.pk_m == other.pk_m && self.pk_x.as_bytes() == other.pk_x.as_bytes()
+    }
+}
+
 impl Encapsulate<Ciphertext, SharedSecret> for EncapsulationKey {
     type Error = Infallible;
 
-- 
2.43.0

