From 791fa190b8041c0f0c248658d48ce43e88dfe8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 1/6] fix: apply the configured timeout to key record lookups

Config::lookup_timeout was never consulted, so a stalled resolver kept
Verifier::verify_header pending forever instead of yielding a temporary error.
---
 src/verifier/query.rs | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..6774494 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -22,10 +22,10 @@ use crate::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet, BTreeSet},
+    collections::{HashMap, HashSet},
     io::{self, ErrorKind},
 };
-use tokio::{task::JoinSet, time};
+use tokio::{runtime::Handle, time};
 use tracing::trace;
 
 struct QueriesBuilder {
@@ -59,32 +59,20 @@ impl QueriesBuilder {
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
-            let resolver = resolver.clone();
-
-            let lookup_timeout = config.lookup_timeout;
-
-            // set.spawn(async move {
-            //     let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-                // let result = match time::timeout(lookup_timeout, f).await {
-                //     Ok(r) => r,
-                //     Err(e) => Err(e.into()),
-                // };
-
-            //     (indexes, result)
-            // });
-
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
-            set.push(
-                (indexes, f)
-            );
-        }
+            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+
+            // Timers are only available when running in a Tokio runtime.
+            let result = if Handle::try_current().is_ok() {
+                match time::timeout(config.lookup_timeout, f).await {
+                    Ok(r) => r,
+                    Err(e) => Err(e.into()),
+                }
+            } else {
+                f.await
+            };
 
+            set.push((indexes, result));
+        }
 
         Queries { set }
     }
-- 
2.43.0


From daa9cc765224773e7448b26f2c86270031158f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 2/6] fix: perform key record lookups concurrently

Lookups were awaited one after the other, so with several signatures the time
spent (and the time until a timeout) added up, contrary to the documentation.
---
 src/verifier/query.rs | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 6774494..c345b70 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -23,7 +23,10 @@ use crate::{
 };
 use std::{
     collections::{HashMap, HashSet},
+    future::{self, Future},
     io::{self, ErrorKind},
+    pin::Pin,
+    task::Poll,
 };
 use tokio::{runtime::Handle, time};
 use tracing::trace;
@@ -54,26 +57,50 @@ impl QueriesBuilder {
     where
         T: LookupTxt + Clone + 'static,
     {
-        let mut set = Vec::new();
+        // Poll all lookups together, so that they make progress concurrently.
+        let mut lookups: Vec<Pin<Box<dyn Future<Output = _> + Send + '_>>> = Vec::new();
 
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
-            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+            let lookup_timeout = config.lookup_timeout;
 
-            // Timers are only available when running in a Tokio runtime.
-            let result = if Handle::try_current().is_ok() {
-                match time::timeout(config.lookup_timeout, f).await {
-                    Ok(r) => r,
-                    Err(e) => Err(e.into()),
-                }
-            } else {
-                f.await
-            };
+            lookups.push(Box::pin(async move {
+                let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+
+                // Timers are only available when running in a Tokio runtime.
+                let result = if Handle::try_current().is_ok() {
+                    match time::timeout(lookup_timeout, f).await {
+                        Ok(r) => r,
+                        Err(e) => Err(e.into()),
+                    }
+                } else {
+                    f.await
+                };
 
-            set.push((indexes, result));
+                (indexes, result)
+            }));
         }
 
+        let mut set = Vec::with_capacity(lookups.len());
+
+        future::poll_fn(|cx| {
+            lookups.retain_mut(|lookup| match lookup.as_mut().poll(cx) {
+                Poll::Ready(r) => {
+                    set.push(r);
+                    false
+                }
+                Poll::Pending => true,
+            });
+
+            if lookups.is_empty() {
+                Poll::Ready(())
+            } else {
+                Poll::Pending
+            }
+        })
+        .await;
+
         Queries { set }
     }
 }
-- 
2.43.0


From 76923ce6da8630f69b624ee5e97c188dccd074b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 3/6] fix: canonicalize a body of only empty lines to CRLF with
 simple

RFC 6376, section 3.4.3: the algorithm converts '*CRLF' at the end of the body
to a single CRLF, so a body consisting of nothing but empty lines is CRLF, too.
---
 src/canonicalize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..9ec27e0 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    has_content: bool,  // whether anything but empty lines was seen
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            has_content: false,
         }
     }
 
@@ -305,6 +307,7 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    CanonState::CrLf if !self.has_content => CRLF.to_vec(),  // only empty lines: same
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +356,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.has_content = true;
     }
 }
 
-- 
2.43.0


From a0bd3e7dd51d6bac35cf767abc6a442bb2b480ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 4/6] fix: encode header names in the z= tag

Header names may contain '|' and '=', which left unencoded made the generated
signature one that DkimSignature itself rejects as ill-formed.
---
 src/signer/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..89b5915 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,11 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // A header name may contain characters that need to be encoded, too.
+    let format_field_name =
+        |name: &FieldName| quoted_printable::encode_ascii_only(name.as_ref().as_bytes(), Some('|'));
+
+    let mut iter = value.iter().map(|(f, v)| (format_field_name(f), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0


From 93f6c5fb7e5085fd03c6e4ca9d7c747d43be01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 5/6] fix: compute RSA key size from the modulus instead of
 rounding up to bytes

Keys of 1017 to 1023 bits were taken to have 1024 bits and so passed the
minimum key size check (RFC 8301, section 3.2).
---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From c5eed76a522a3b46ee4b2b436224833456208775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 6/6] fix: never hash the signature header being verified as a
 signed header

RFC 6376, section 3.5: h= does not include the DKIM-Signature header field being
verified. When h= listed more DKIM-Signature instances than there were other
such headers, the evaluated header itself was picked and verification failed.
---
 src/verifier/header.rs |  2 +-
 src/verifier/verify.rs | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/verifier/header.rs b/src/verifier/header.rs
index a4b4c35..3cbf090 100644
--- a/src/verifier/header.rs
+++ b/src/verifier/header.rs
@@ -405,7 +405,7 @@ fn verify_task(
         let name = task.header_name.as_ref().unwrap();
         let value = task.header_value.as_ref().unwrap();
 
-        match verify::perform_verification(headers, &key, sig, name, value) {
+        match verify::perform_verification(headers, task.index, &key, sig, name, value) {
             Ok(()) => {
                 task.status = VerifyStatus::Successful;
                 break;
diff --git a/src/verifier/verify.rs b/src/verifier/verify.rs
index bdd8e98..bdbe497 100644
--- a/src/verifier/verify.rs
+++ b/src/verifier/verify.rs
@@ -18,7 +18,7 @@ use crate::{
     crypto::{self, HashAlgorithm, VerifyingKey},
     header::HeaderFields,
     message_hash,
-    signature::DkimSignature,
+    signature::{DkimSignature, DKIM_SIGNATURE_NAME},
     tag_list,
     verifier::VerificationError,
 };
@@ -27,6 +27,7 @@ use tracing::trace;
 
 pub fn perform_verification(
     headers: &HeaderFields,
+    index: usize,
     verifying_key: &VerifyingKey,
     sig: &DkimSignature,
     name: &str,
@@ -36,11 +37,26 @@ pub fn perform_verification(
 
     let original_dkim_sig = make_original_dkim_sig(value);
 
+    // §3.5: ‘The [h=] field MUST NOT include the DKIM-Signature header field that
+    // is being created or verified’. That header must then not be picked, either.
+    let other_headers = if sig.signed_headers.iter().any(|name| *name == DKIM_SIGNATURE_NAME) {
+        let mut other_headers = headers.as_ref().to_vec();
+        other_headers.remove(index);
+        Some(HeaderFields::new(other_headers))
+    } else {
+        None
+    };
+    let (headers, signed_headers) = match &other_headers {
+        None => (headers, &sig.signed_headers[..]),
+        Some(Ok(other_headers)) => (other_headers, &sig.signed_headers[..]),
+        Some(Err(_)) => (headers, &[][..]),  // no other headers, nothing to pick
+    };
+
     let data_hash = message_hash::compute_data_hash(
         hash_alg,
         sig.canonicalization.header,
         headers,
-        &sig.signed_headers,
+        signed_headers,
         name,
         &original_dkim_sig,
     );
-- 
2.43.0

