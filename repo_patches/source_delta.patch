From 04d5b012c1ab978d297e146e0df7f69d7249fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 01/11] fix: pack the low bit of the sixth coefficient in
 LightSaber reconciliation data

read_bytes_3bit wrote bit 2 of cs[5] (already present in bs[2]) where its bit 0
belongs, so every eighth coefficient lost a bit and decapsulation failed with
probability of a few in a million.
---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From d25f03656126c75dd169486f1116da1b40865411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 02/11] fix: reject too short ciphertexts in auth_decrypt
 instead of panicking

---
 latke/src/auth_enc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..c54dcf4 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -12,6 +12,9 @@ use rand_core::{CryptoRng, RngCore};
 
 type MyCipher = ChaCha20;
 
+/// The size of the ChaCha20 nonce that is sent along with every ciphertext
+pub(crate) const NONCELEN: usize = 12;
+
 pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
 
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
@@ -28,7 +31,7 @@ pub(crate) fn auth_encrypt<R: RngCore + CryptoRng>(
 ) -> Vec<u8> {
     let (enc_key, mac_key) = key.split_at(32);
 
-    let mut nonce = [0u8; 12];
+    let mut nonce = [0u8; NONCELEN];
     rng.fill_bytes(&mut nonce);
 
     // Encrypt the message with the stream cipher
@@ -55,8 +58,12 @@ pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
+    // Anything shorter than a nonce and a MAC cannot be a valid ciphertext
+    if sealed_msg.len() < NONCELEN + mac_size {
+        return Err(MacError);
+    }
     let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
-    let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
+    let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - NONCELEN);
 
     // Check the MAC
     MyMac::new_from_slice(&mac_key)
-- 
2.43.0


From 1271b45bd0c180a39183cc936bd6b4ec0333ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 03/11] fix: implement run_sim for FG-IBKE

---
 latke/src/ibke/fg_ibke.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..a45056e 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,32 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let out = match self.next_step {
+            0 => {
+                // Sends id, X, eph_pk
+                Some(Id::default().len() + 32 + 32)
+            }
+            1 => {
+                // Sends id, X, eph_pk, mac1
+                Some(Id::default().len() + 32 + 32 + 32)
+            }
+            2 => {
+                // Sends mac0. This is the initiator's last message
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => panic!("protocol already ended"),
+        };
+
+        // Initiator gets the even steps, responder gets the odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
-- 
2.43.0


From b886f90f9c93da14042c0639e60181767efcf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 04/11] fix: mark simulated HMQV-C sessions as done after their
 last step

---
 latke/src/ibke/id_hmqv_c.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..a8712fd 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -176,10 +176,15 @@ impl IdentityBasedKeyExchange for IdHmqvC {
                 Some(32 + 32 + IdHmqvCCert::size())
             }
             2 => {
-                // Sends a MAC
+                // Sends a MAC. This is the initiator's last message
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
-- 
2.43.0


From 059e3bc3cd8d54dc4f9b4f50e53501c2b4845fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 05/11] fix: count the nonce in the simulated SIGMA-R message
 sizes

---
 latke/src/ibke/id_sigma_r.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..1fca695 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -397,11 +397,12 @@ impl IdSigmaR {
                 Some(Nonce::default().len() + BYTES_CCA_DEC)
             }
             2 => {
-                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption tag
+                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the lengths of the authenticated encryption nonce and tag
                 Some(
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
@@ -412,6 +413,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
-- 
2.43.0


From a8d8e61e5d384b02e120d7a943a50a0c4779857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/11] fix: keep executing LATKE sessions after a decryption
 failure

The assertion on the decryption result made the simulation branch unreachable,
so a party with the wrong password aborted after the PAKE instead of running the
protocol to its end. A session that left real mode must never output a key.
---
 latke/src/eue_transform.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..580670b 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -72,10 +72,12 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         mut rng: R,
         incoming_ciphertext: &[u8],
     ) -> Result<Option<Vec<u8>>, I::Error> {
+        // A late message must not change the state of a completed session
+        assert!(!self.is_done(), "protocol already finished");
+
         // Decrypt the incoming ciphertext if there is any and we're in real mode
         let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
@@ -119,7 +121,12 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         Ok(outgoing_ciphertext)
     }
 
+    /// Returns the ID of the other party and the session key. Panics if the session did not complete, or if it failed and was merely simulated to its end
     pub fn finalize(&self) -> (Id, SessKey) {
+        assert!(
+            self.real_mode && self.is_done(),
+            "session did not complete successfully"
+        );
         self.sess.finalize()
     }
 }
-- 
2.43.0


From c35150393220f9e647cfc909d072c4195fe68812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 07/11] fix: do not release session keys before the protocol
 completed

KC-SPAKE2, FG-IBKE, HMQV-C and SIGMA-R derive their key before the peer is
authenticated, and finalize() returned it at any later time, even after the
peer was rejected. Pake::finalize is documented to panic in that case.
---
 latke/src/ibke/fg_ibke.rs    | 3 +++
 latke/src/ibke/id_hmqv_c.rs  | 2 ++
 latke/src/ibke/id_sigma_r.rs | 2 ++
 latke/src/pake/kc_spake2.rs  | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index a45056e..81a6f25 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -312,6 +312,9 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        // The key is derived before the peer's MAC is checked
+        assert!(self.done, "protocol did not complete");
+
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(self.sess_key.as_ref().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index a8712fd..7ccfe1f 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -158,6 +158,8 @@ impl IdentityBasedKeyExchange for IdHmqvC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        // The key is derived before the peer's MAC is checked
+        assert!(self.done, "protocol did not complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 1fca695..e61e792 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -381,6 +381,8 @@ impl IdSigmaR {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        // The key is derived before the peer's signature and MAC are checked
+        assert!(self.done, "protocol did not complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..b16a082 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,8 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        // The key is derived before the peer's MAC is checked
+        assert!(self.done, "protocol did not complete");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From b55d1f8a8ea05500fa35b766473fc92160477125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 08/11] fix: check the norm of z in the AVX2 Dilithium
 verification

The specification and the portable code reject signatures with a coefficient of
z of GAMMA1 - BETA or more. Unpacking only bounds them by GAMMA1.
---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
index 9c7a3ab..efa27b7 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
@@ -306,9 +306,12 @@ int PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM2_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM2_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM2_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
index d09c4de..566189a 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
@@ -316,9 +316,12 @@ int PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM3_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM3_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM3_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
index 916dd22..3cb52ba 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
@@ -326,9 +326,12 @@ int PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM5_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM5_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM5_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&z.vec[i]);
     }
 
-- 
2.43.0


From 5ae2e532cb479db2750ca0a147ce00944afd4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 09/11] fix: reject an authenticated peer other than the
 pre-specified one in LATKE

---
 latke/src/latke.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latke/src/latke.rs b/latke/src/latke.rs
index dcbaa39..d2c4e06 100644
--- a/latke/src/latke.rs
+++ b/latke/src/latke.rs
@@ -14,6 +14,7 @@ pub struct Latke<I: IdentityBasedKeyExchange, P: Pake> {
     ssid: Ssid,
     pwfile: LatkePwfile<I>,
     role: PartyRole,
+    peer: PeerModel,
 
     pake_state: P,
     ibke_state: Option<Eue<I>>,
@@ -88,6 +89,7 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
             ssid,
             pwfile,
             role,
+            peer,
             pake_state,
             ibke_state: None,
             running_transcript_hash: MyKdfExtract::new(Some(b"latke-tr-hash")),
@@ -169,6 +171,11 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
         // Finalize the IBKE
         let (id, ibke_sess_key) = self.ibke_state.as_ref().unwrap().finalize();
 
+        // If the peer was specified in advance, it must be the one the IBKE authenticated
+        if let PeerModel::PreSpecified(peer) = self.peer {
+            assert!(id == peer, "peer identity mismatch");
+        }
+
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(&ibke_sess_key);
-- 
2.43.0


From 9219bbccb00bb72db75aaf85ee6a2aa30ebbca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 10/11] fix: keep Saber decapsulation from loading from a
 secret-dependent address

With optimisation the masked choice between the re-encryption hash and z
was compiled to a load from one of two arrays, chosen by whether the
received ciphertext was valid.
---
 saber-rust/src/generic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/saber-rust/src/generic.rs b/saber-rust/src/generic.rs
index c47f20c..4fde790 100644
--- a/saber-rust/src/generic.rs
+++ b/saber-rust/src/generic.rs
@@ -575,6 +575,8 @@ pub(crate) fn decapsulate<I: SaberImpl>(ct: &I::Ciphertext, sk: &I::SecretKey) -
 
     let mut hasher = Sha3_256::default();
     for (rb, zb) in r.iter().zip(z.iter()) {
+        // Otherwise the optimizer turns the selection into a load from an address that depends on `fail`
+        let fail = core::hint::black_box(fail);
         let b = (U8::from(*rb) & !fail) | (U8::from(*zb) & fail);
         sha3::digest::Input::input(&mut hasher, [b.declassify()]);
     }
-- 
2.43.0


From 5eca165f403fdb62d414d58526dc8e2ec396b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 11/11] fix: AVX2 Dilithium use_hint rounds towards the wrong
 side when the low part is zero

UseHint adds one only for a positive low part and subtracts one otherwise, as
the portable code does. The vectorised code treated zero as positive, so it
refused signatures that the specification and the portable code accept, and
the other way round.
---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c | 2 +-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c | 2 +-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
index 6a13031..caf4db4 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
@@ -145,7 +145,7 @@ void PQCLEAN_DILITHIUM2_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
index bbe8ec4..bccc494 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
@@ -143,7 +143,7 @@ void PQCLEAN_DILITHIUM3_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
index 65392e3..82c3714 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
@@ -143,7 +143,7 @@ void PQCLEAN_DILITHIUM5_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
-- 
2.43.0

