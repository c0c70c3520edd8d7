From 3d761e5a88d5b73131524e2f0918d385c1570404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 1/7] fix: wait for the in-memory session store's lock instead
 of failing

MemoryStore used try_lock, so two operations that met on the store made one
of them fail with 'operation would block': a status poll could make the
recording of a response's outcome fail.
---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..af4e0b2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             session.status = status;
             return Ok(());
         }
@@ -60,7 +60,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -68,7 +68,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From 7e8f50ca414d95e6fc730dc4a4735425bd115739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 2/7] fix: never move a session of the in-memory store
 backwards

Verifier::retrieve_authorization_request reads the status and then writes
SentRequest. When the response was verified in between, that write replaced
the session's final outcome.
---
 src/verifier/session.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index af4e0b2..677709d 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -53,7 +53,11 @@ impl SessionStore for MemoryStore {
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
         if let Some(session) = self.store.lock().await.get_mut(&uuid) {
-            session.status = status;
+            // The caller may have decided on this update from an outdated read (a request being
+            // retrieved while its response is verified): never move a session backwards.
+            if matches!(status, Status::Complete(_)) || status > session.status {
+                session.status = status;
+            }
             return Ok(());
         }
         bail!("session not found")
-- 
2.43.0


From 4992834ae6ca1a1d2bba22f09e9aceb3d58b2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:48 +0000
Subject: [PATCH 3/7] fix: refuse an empty certificate chain instead of
 panicking

---
 src/verifier/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..12f5a06 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,9 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x5c must contain at least the leaf certificate")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +140,9 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x5c must contain at least the leaf certificate")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0


From 59f6f863c9e61a075c7ab776afea61cfcce61049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:48 +0000
Subject: [PATCH 4/7] fix: report a failing signer instead of issuing a request
 without a valid signature

---
 src/verifier/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index 12f5a06..4bfa14b 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -1,6 +1,6 @@
 use std::{fmt::Debug, sync::Arc};
 
-use anyhow::{bail, Context as _, Result};
+use anyhow::{anyhow, bail, Context as _, Result};
 use async_trait::async_trait;
 use base64::prelude::*;
 use serde_json::{json, Value as Json};
@@ -251,7 +251,7 @@ impl Client for X509HashClient {
     }
 }
 
-async fn make_jwt<S: RequestSigner + ?Sized>(
+async fn make_jwt<S: RequestSigner + Sync + ?Sized>(
     header: Json,
     body: &AuthorizationRequestObject,
     signer: &S,
@@ -260,7 +260,10 @@ async fn make_jwt<S: RequestSigner + ?Sized>(
         serde_json::to_vec(&header).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let payload = [header_b64.as_bytes(), b".", body_b64.as_bytes()].concat();
-    let signature = signer.sign(&payload).await;
+    let signature = signer
+        .try_sign(&payload)
+        .await
+        .map_err(|e| anyhow!("failed to sign the Request Object: {e}"))?;
     let signature_b64 = BASE64_URL_SAFE_NO_PAD.encode(signature);
     Ok(format!("{header_b64}.{body_b64}.{signature_b64}"))
 }
-- 
2.43.0


From f64e7dfece4e6e189d1619bfa7b10645ddf0fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:55 +0000
Subject: [PATCH 5/7] fix: name the key a response is encrypted to in the
 session transcript

get_encryption_jwk_thumbprint took the first key not marked for other use, even when
responses are encrypted to a later one (a signing key without 'use' before the
encryption key, say), so that the verifier computes another session transcript.
---
 src/core/iso_18013_7/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..5c33784 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -390,7 +390,16 @@ pub fn get_encryption_jwk_thumbprint(
         .ok()
         .and_then(|meta| meta.jwks().parsing_error().ok())
         .and_then(|jwks| {
-            jwks.keys.iter().find_map(|key_map| {
+            // A response is encrypted to the first key that `jwe::find_encryption_jwk` finds
+            // suitable: that is the key to name, even when other keys precede it.
+            let has = |key_map: &serde_json::Map<String, serde_json::Value>, member, value| {
+                key_map.get(member).and_then(|v| v.as_str()) == Some(value)
+            };
+            let suitable = jwks
+                .keys
+                .iter()
+                .filter(|key_map| has(key_map, "alg", "ECDH-ES") && has(key_map, "crv", "P-256"));
+            suitable.chain(jwks.keys.iter()).find_map(|key_map| {
                 let jwk_json = serde_json::Value::Object(key_map.clone());
                 let is_enc = key_map
                     .get("use")
-- 
2.43.0


From b0dc559eb346c98d6256d6b24e0b497f530df62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 6/7] fix: give a NonEmptyVec by default one element instead of
 none

---
 src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..4a26feb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,7 +2,7 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
@@ -24,6 +24,12 @@ impl<T> NonEmptyVec<T> {
     }
 }
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> TryFrom<Vec<T>> for NonEmptyVec<T> {
     type Error = Error;
 
-- 
2.43.0


From a1ca247f6c3660a503213a2f43f286f2e4874fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:51 +0000
Subject: [PATCH 7/7] fix: skip the signature only for the algorithm 'none',
 not for every name containing it

---
 src/core/authorization_request/verification/did.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/authorization_request/verification/did.rs b/src/core/authorization_request/verification/did.rs
index f901785..9616fdd 100644
--- a/src/core/authorization_request/verification/did.rs
+++ b/src/core/authorization_request/verification/did.rs
@@ -45,7 +45,7 @@ pub async fn verify_with_resolver(
     // so that trust is preserved when receiving unencoded requests
     // NOTE: This requires that `Algorithm::None` is permitted in the wallet metadata
     // Otherwise, this function will error in the previous assertion.
-    if alg.contains("none") {
+    if alg == "none" {
         return Ok(());
     }
 
-- 
2.43.0

