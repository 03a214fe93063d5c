From 1c3c6f11064e6c5c3e0e2c75ba105eb911731ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 1/7] fix: simple body canonicalization of a body of empty
 lines is CRLF

---
 src/canonicalize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..6634eb5 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    has_content: bool,  // whether anything other than empty lines was seen
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            has_content: false,
         }
     }
 
@@ -305,7 +307,8 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
-                    CanonState::CrLf => vec![],
+                    CanonState::CrLf if self.has_content => vec![],
+                    CanonState::CrLf => CRLF.to_vec(),  // only empty lines is CRLF
                     CanonState::Cr => {
                         let mut result = vec![];
                         self.flush_empty_lines(&mut result);
@@ -353,6 +356,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.has_content = true;
     }
 }
 
-- 
2.43.0


From 38b22e1d465863cde48458ab386e3e19e3ba6287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:06 +0000
Subject: [PATCH 2/7] fix: l=, t=, and x= tag values must consist of digits
 only

---
 src/signature.rs | 6 +++---
 src/tag_list.rs  | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..23fa322 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,7 +957,7 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
@@ -991,13 +991,13 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
diff --git a/src/tag_list.rs b/src/tag_list.rs
index 705106c..34c2fae 100644
--- a/src/tag_list.rs
+++ b/src/tag_list.rs
@@ -162,6 +162,15 @@ pub fn parse_colon_separated_value(value: &str) -> Vec<&str> {
     value.split(':').map(trim_surrounding_fws).collect()
 }
 
+pub fn parse_number_value(value: &str) -> Result<u64, ParseTagListError> {
+    // Only digits are allowed, whereas `str::parse` also accepts a plus sign.
+    if value.bytes().all(|b| b.is_ascii_digit()) {
+        value.parse().map_err(|_| ParseTagListError::Syntax)
+    } else {
+        Err(ParseTagListError::Syntax)
+    }
+}
+
 pub fn parse_base64_value(value: &str) -> Result<Vec<u8>, ParseTagListError> {
     debug_assert!(is_tag_value(value));
 
-- 
2.43.0


From f94973f75cae861ef68bd7df63e5eeb25e02be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:11 +0000
Subject: [PATCH 3/7] fix: RSA key size is exact, not rounded up to full bytes

---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From 9b1086640e7accecb939e904f9174238abb78b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:38 +0000
Subject: [PATCH 4/7] fix: encode header names copied into z= tag

---
 src/signer/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..cb4c0ed 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,8 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // Names must be encoded, too, as they may contain eg '|' or '='.
+    let mut iter = value.iter().map(|(f, v)| (format_field_value(f.as_ref().as_bytes()), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0


From 09bd7c745d5c3e25d648b5da50c222fec3ab873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:44 +0000
Subject: [PATCH 5/7] fix: DKIM-Signature header being verified is not itself
 selected by h=

---
 src/header.rs          |  7 +++++++
 src/verifier/header.rs |  2 +-
 src/verifier/verify.rs | 13 +++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index e2673e9..7f2ac02 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -218,6 +218,13 @@ impl HeaderFields {
         Ok(Self(value))
     }
 
+    // Note that unlike elsewhere the result may be empty.
+    pub(crate) fn without(&self, index: usize) -> Self {
+        let mut headers = self.0.clone();
+        headers.remove(index);
+        Self(headers)
+    }
+
     pub fn from_vec(value: Vec<(String, Vec<u8>)>) -> Result<Self, HeaderFieldError> {
         let value: Vec<_> = value
             .into_iter()
diff --git a/src/verifier/header.rs b/src/verifier/header.rs
index a4b4c35..5f78154 100644
--- a/src/verifier/header.rs
+++ b/src/verifier/header.rs
@@ -405,7 +405,7 @@ fn verify_task(
         let name = task.header_name.as_ref().unwrap();
         let value = task.header_value.as_ref().unwrap();
 
-        match verify::perform_verification(headers, &key, sig, name, value) {
+        match verify::perform_verification(headers, &key, sig, task.index, name, value) {
             Ok(()) => {
                 task.status = VerifyStatus::Successful;
                 break;
diff --git a/src/verifier/verify.rs b/src/verifier/verify.rs
index bdd8e98..b66e686 100644
--- a/src/verifier/verify.rs
+++ b/src/verifier/verify.rs
@@ -18,7 +18,7 @@ use crate::{
     crypto::{self, HashAlgorithm, VerifyingKey},
     header::HeaderFields,
     message_hash,
-    signature::DkimSignature,
+    signature::{DkimSignature, DKIM_SIGNATURE_NAME},
     tag_list,
     verifier::VerificationError,
 };
@@ -29,6 +29,7 @@ pub fn perform_verification(
     headers: &HeaderFields,
     verifying_key: &VerifyingKey,
     sig: &DkimSignature,
+    index: usize,
     name: &str,
     value: &str,
 ) -> Result<(), VerificationError> {
@@ -36,10 +37,18 @@ pub fn perform_verification(
 
     let original_dkim_sig = make_original_dkim_sig(value);
 
+    // Even when DKIM-Signature is listed in h=, the header field being verified
+    // is itself not among the signed header fields (RFC 6376, section 3.5).
+    let headers = if sig.signed_headers.iter().any(|name| *name == DKIM_SIGNATURE_NAME) {
+        Cow::Owned(headers.without(index))
+    } else {
+        Cow::Borrowed(headers)
+    };
+
     let data_hash = message_hash::compute_data_hash(
         hash_alg,
         sig.canonicalization.header,
-        headers,
+        &headers,
         &sig.signed_headers,
         name,
         &original_dkim_sig,
-- 
2.43.0


From ee26a6acf6ea863e09291f47e115bb68f63a3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 6/7] fix: do not sign when the expiration cannot lie after the
 timestamp

---
 src/signer/sign.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index f56d85d..ecaa2d8 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -99,6 +99,13 @@ where
             .saturating_add(duration.as_secs())
     });
 
+    if let (Some(timestamp), Some(expiration)) = (timestamp, expiration) {
+        if expiration <= timestamp {
+            trace!("not signing, expiration time too large");
+            return Err(SigningError::Overflow);
+        }
+    }
+
     // calculate z= tag copied headers
 
     let copied_headers = if request.copy_headers {
-- 
2.43.0


From c4ef9b7912d071c111d7ebad20bedfc30e9edbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 7/7] fix: refuse non-ASCII extension tags when only ASCII may
 be emitted

---
 src/signer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signer/mod.rs b/src/signer/mod.rs
index 0050c4b..84250f8 100644
--- a/src/signer/mod.rs
+++ b/src/signer/mod.rs
@@ -357,6 +357,7 @@ fn validate_request<T: AsRef<SigningKey>>(request: &SignRequest<T>) -> Result<()
             || !tag_list::is_tag_name(name)
             || !tag_list::is_tag_value(value)
             || format::is_output_tag(name)
+            || (request.format.ascii_only && !value.is_ascii())
     }) {
         return Err(RequestError::InvalidExtTags);
     }
-- 
2.43.0

