From 1d678b17eb2afdbf71c555595abd79a1d4ef4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 1/3] fix: refuse TLS records whose version major byte is not 3

The record parser accepted the named non-TLS versions (SSLv2 and DTLS code points)
because only unnamed versions were checked against 0x03XX.
---
 crates/tls-core/src/msgs/message.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index b222180..cedd788 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -97,12 +97,9 @@ impl OpaqueMessage {
         }
 
         // Accept only versions 0x03XX for any XX.
-        match version {
-            ProtocolVersion::Unknown(ref v) if (v & 0xff00) != 0x0300 => {
-                return Err(MessageError::IllegalProtocolVersion);
-            }
-            _ => {}
-        };
+        if version.get_u16() & 0xff00 != 0x0300 {
+            return Err(MessageError::IllegalProtocolVersion);
+        }
 
         let mut sub = r.sub(len as usize).ok_or(MessageError::TooShortForLength)?;
         let payload = Payload::read(&mut sub);
-- 
2.43.0


From 602e8d8819bd2dedc2e788804b2cd4935422daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 2/3] verif hook: small deframer limit under
 cfg(tlsn_verif_small)

---
 crates/tls-core/src/msgs/message.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index cedd788..bb2e53f 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -71,6 +71,7 @@ pub struct OpaqueMessage {
     pub payload: Payload,
 }
 
+#[allow(unexpected_cfgs)]
 impl OpaqueMessage {
     /// `MessageError` allows callers to distinguish between valid prefixes (might
     /// become valid if we read more data) and invalid data.
@@ -135,8 +136,14 @@ impl OpaqueMessage {
     /// This is the maximum on-the-wire size of a TLSCiphertext.
     /// That's 2^14 payload bytes, a header, and a 2KB allowance
     /// for ciphertext overheads.
+    #[cfg(not(tlsn_verif_small))]
     const MAX_PAYLOAD: u16 = 16384 + 2048;
 
+    /// Reduced limit for bounded symbolic checking (never set in a normal
+    /// build): keeps the deframing buffer small.
+    #[cfg(tlsn_verif_small)]
+    const MAX_PAYLOAD: u16 = 12;
+
     /// Content type, version and size.
     const HEADER_SIZE: u16 = 1 + 2 + 2;
 
-- 
2.43.0


From c93ec6590d63ce4e435d26a39bac5d14c6fcb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 3/3] fix: report the ECDSA curve that verified the server's
 signature

SignatureAlgorithm::from_alg compared the signature algorithm only, which P-256
and P-384 keys share, so a signature by a P-384 key was reported as P-256.
---
 crates/tls-core/src/verify.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..11acb42 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -484,28 +484,32 @@ pub enum SignatureAlgorithm {
 
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
-        let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The signature algorithm alone does not identify the curve of an ECDSA key.
+        let is = |other: &dyn pki_types::SignatureVerificationAlgorithm| {
+            alg.signature_alg_id() == other.signature_alg_id()
+                && alg.public_key_alg_id() == other.public_key_alg_id()
+        };
+        if is(webpki::ring::ECDSA_P256_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P256_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
-        } else if id == webpki::ring::ED25519.signature_alg_id() {
+        } else if is(webpki::ring::ED25519) {
             SignatureAlgorithm::ED25519
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA256) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA384) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA512.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA512) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         } else {
             unreachable!()
-- 
2.43.0

