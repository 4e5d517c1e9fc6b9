From f64d54b1fac61a856fa60b72d24f7a721fa058a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 01/29] fix: report the concrete type for an aliased __typename
 on abstract types

An operation that selects only an aliased __typename on an interface or
union field got the name of the abstract type instead of the runtime type.
---
 bin/router/src/executor/projection/response.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 2478d9d..dcf64d2 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -381,9 +381,22 @@ fn project_selection_set_with_map<'a>(
                     }
                     ProjectionValueSource::ResponseData { .. } => {
                         if plan.is_typename {
-                            // If the field is TYPENAME_FIELD, we should set it to the parent type name
+                            // If the field is TYPENAME_FIELD, we should set it to the parent type name.
+                            // When `__typename` was requested only under an alias, the object has no
+                            // plain `__typename` to tell its concrete type, but the aliased value does.
+                            let has_typename = obj
+                                .binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k)
+                                .is_ok();
+                            let aliased_typename = match field_val {
+                                Some(value) if !has_typename => value.as_str(),
+                                _ => None,
+                            };
+                            let type_name = match aliased_typename {
+                                Some(name) => name,
+                                None => parent_type_name.get()?,
+                            };
                             buffer.put(QUOTE);
-                            buffer.put(parent_type_name.get()?.as_bytes());
+                            buffer.put(type_name.as_bytes());
                             buffer.put(QUOTE);
                             NullPropagationDecision::KeepNullValue
                         } else if let Some(field_val) = field_val {
-- 
2.43.0


From 300750922efd2d9fd4cfd4bbf67938ba23cdee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 02/29] fix: drop inline fragments emptied by constant
 @skip/@include

An object whose selections are all excluded must be answered as {}, not null.
---
 bin/router/src/query_planner/ast/normalization/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/query_planner/ast/normalization/mod.rs b/bin/router/src/query_planner/ast/normalization/mod.rs
index 845d2a9..93bd299 100644
--- a/bin/router/src/query_planner/ast/normalization/mod.rs
+++ b/bin/router/src/query_planner/ast/normalization/mod.rs
@@ -175,6 +175,13 @@ fn inject_skipped_typename_for_selection_set(
             }
         }
     }
+
+    // A fragment emptied by constant `@skip`/`@include` selects nothing. Dropping it lets
+    // the enclosing field be recognized as an empty object.
+    selection_set.items.retain(|item| match item {
+        SelectionItem::InlineFragment(fragment) => !fragment.selections.items.is_empty(),
+        _ => true,
+    });
 }
 
 #[cfg(test)]
-- 
2.43.0


From ad741354658cf4a7a39395603ccce2842697c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 03/29] fix: follow paths through lists of lists

Entity fetches below a list of lists were never sent.
---
 bin/router/src/executor/utils/traverse.rs | 41 +++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/utils/traverse.rs b/bin/router/src/executor/utils/traverse.rs
index a09454c..dd176f8 100644
--- a/bin/router/src/executor/utils/traverse.rs
+++ b/bin/router/src/executor/utils/traverse.rs
@@ -35,7 +35,17 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                 let current_error_path_for_index = current_error_path
                     .as_ref()
                     .map(|current_error_path| current_error_path.concat_index(index));
-                callback(item, current_error_path_for_index);
+                match item {
+                    // A list of lists has a single `List` segment in the path
+                    Value::Array(_) => traverse_and_callback_mut(
+                        item,
+                        remaining_path,
+                        schema_metadata,
+                        current_error_path_for_index,
+                        callback,
+                    ),
+                    _ => callback(item, current_error_path_for_index),
+                }
             }
         } else {
             // If the path is empty and current_data is not an array, just call the callback
@@ -81,6 +91,21 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                         callback,
                     );
                 }
+            } else if let Value::Array(arr) = current_data {
+                // A list of lists has a single `List` segment in the path,
+                // so the object can be nested in further arrays
+                for (index, item) in arr.iter_mut().enumerate() {
+                    let current_error_path_for_index = current_error_path
+                        .as_ref()
+                        .map(|current_error_path| current_error_path.concat_index(index));
+                    traverse_and_callback_mut(
+                        item,
+                        remaining_path,
+                        schema_metadata,
+                        current_error_path_for_index,
+                        callback,
+                    );
+                }
             }
         }
         FlattenNodePathSegment::TypeCondition(type_condition) => {
@@ -137,7 +162,13 @@ pub fn traverse_and_callback<'a, Callback>(
     if remaining_path.is_empty() {
         if let Value::Array(arr) = current_data {
             for item in arr.iter() {
-                callback(item);
+                match item {
+                    // A list of lists has a single `List` segment in the path
+                    Value::Array(_) => {
+                        traverse_and_callback(item, remaining_path, possible_types, callback)
+                    }
+                    _ => callback(item),
+                }
             }
         } else {
             callback(current_data);
@@ -161,6 +192,12 @@ pub fn traverse_and_callback<'a, Callback>(
                     let rest_of_path = &remaining_path[1..];
                     traverse_and_callback(next_data, rest_of_path, possible_types, callback);
                 }
+            } else if let Value::Array(arr) = current_data {
+                // A list of lists has a single `List` segment in the path,
+                // so the object can be nested in further arrays
+                for item in arr.iter() {
+                    traverse_and_callback(item, remaining_path, possible_types, callback);
+                }
             }
         }
         FlattenNodePathSegment::TypeCondition(type_condition) => {
-- 
2.43.0


From 3fe325dd7614a09912c11d6b509cd61f2272bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 04/29] fix: no type guard for a conditional fragment on the
 parent's own type

A fragment with @include/@skip on the very same abstract type lost its
fields when no __typename was fetched.
---
 bin/router/src/executor/projection/plan.rs | 29 ++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 9ab0889..00273d1 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -981,6 +981,35 @@ impl FieldProjectionPlan {
         parent_condition: &Option<FieldProjectionCondition>,
     ) {
         let inline_fragment_type = &inline_fragment.type_condition;
+
+        // A fragment on the very type it is used in applies to every object there,
+        // so only its directives matter. Its fields need no type guard, and `__typename`
+        // may not even be fetched when such fragments are the only ones.
+        if inline_fragment_type == parent_type_name {
+            let condition_for_fragment = Self::apply_directive_conditions(
+                parent_condition.clone(),
+                &inline_fragment.include_if,
+                &inline_fragment.skip_if,
+            );
+
+            for selection in Self::from_selection_set(
+                &inline_fragment.selections,
+                schema_metadata,
+                inline_fragment_type,
+                &condition_for_fragment,
+            )
+            .unwrap_or_default()
+            {
+                Self::merge_plan(
+                    field_selections,
+                    selection,
+                    parent_type_name,
+                    schema_metadata,
+                );
+            }
+            return;
+        }
+
         let type_condition = if schema_metadata.is_object_type(inline_fragment_type) {
             TypeCondition::Exact(inline_fragment_type.to_string())
         } else {
-- 
2.43.0


From b7f518a4c40bdd288ebd17e403d2f12de7b601b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 05/29] fix: keep nulls inside lists of representations

---
 bin/router/src/executor/projection/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..77fc603 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -72,6 +72,13 @@ pub fn project_requires(
 
             let mut first = true;
             for entity_item in entity_array {
+                if matches!(entity_item, Value::Null) {
+                    // Nulls keep their place among the list items
+                    write_response_key(first, None, buffer);
+                    buffer.put(NULL);
+                    first = false;
+                    continue;
+                }
                 let projected = project_requires(
                     possible_types,
                     requires_selections,
-- 
2.43.0


From 737d93d5f431c1958163d711924fcb7d4679390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 06/29] fix: subgraph request timeout also covers reading the
 response body

---
 bin/router/src/executor/executors/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/executors/http.rs b/bin/router/src/executor/executors/http.rs
index 83351d9..ec2b386 100644
--- a/bin/router/src/executor/executors/http.rs
+++ b/bin/router/src/executor/executors/http.rs
@@ -262,7 +262,16 @@ async fn send_request<'a>(
 
         let (parts, body) = res.into_parts();
 
-        let body = match body.collect().await {
+        // The timeout covers the whole response: a subgraph that stalls
+        // in the middle of the body must not hold the request any longer.
+        let body_fut = body.collect();
+        let body = if let Some(timeout_duration) = timeout {
+            let remaining = timeout_duration.saturating_sub(transport_started_at.elapsed());
+            tokio::time::timeout(remaining, body_fut).await?
+        } else {
+            body_fut.await
+        };
+        let body = match body {
             Ok(body) => body.to_bytes(),
             Err(err) => {
                 return Err(SubgraphExecutorError::ResponseBodyReadFailure(
-- 
2.43.0


From 5fe703369754f6690bce5010239e793b8ab9f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 07/29] fix: subgraph in-flight dedupe key covers every value
 of every header

---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..fa2fe08 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted by name for a consistent order. Every value takes part, as raw bytes:
+        // a header may occur several times and does not have to be valid text.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(name, value)| (name.as_str(), value.as_bytes()))
+            .collect();
+        headers.sort_by_key(|(name, _)| *name);
 
         self.method.hash(state);
         self.endpoint.hash(state);
-- 
2.43.0


From acc3ea6760925115e2775d9993d19610b3d5b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 08/29] fix: inbound request fingerprint covers non-ASCII
 header values and their order

---
 bin/router/src/pipeline/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..a96e9d6 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -928,12 +928,14 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // raw bytes: a header value does not have to be valid text
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
-    headers.sort_unstable();
+    // the order of the values of one header matters, the order of the headers does not
+    headers.sort_by_key(|(name, _)| *name);
 
     method.hash(&mut hasher);
     path.hash(&mut hasher);
-- 
2.43.0


From 51597816a42516ebfcb59b0776cf85d11572b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 09/29] fix: progressive override labels also apply to fields
 of union types

---
 bin/router/src/query_planner/graph/mod.rs | 29 +++++++++++++----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/bin/router/src/query_planner/graph/mod.rs b/bin/router/src/query_planner/graph/mod.rs
index 8ea58b3..1b5ce40 100644
--- a/bin/router/src/query_planner/graph/mod.rs
+++ b/bin/router/src/query_planner/graph/mod.rs
@@ -699,6 +699,20 @@ impl Graph {
                               .into(),
                           });
 
+                    let edge_join_field =
+                        maybe_join_field.map(|join_field| match join_field.provides {
+                            Some(_) => {
+                                // This is done in order to "reset" the provided field info, we can probably
+                                // do this in a better way, and extract info from the JoinFieldDirective into the edges, instead of depending on
+                                // the raw directive info.
+                                // TODO: @dotan, can you explain it?
+                                let mut new = join_field.clone();
+                                new.provides = None;
+                                new
+                            }
+                            None => join_field.clone(),
+                        });
+
                     // If a field points to a union type:
                     //
                     // ```
@@ -821,7 +835,7 @@ impl Graph {
                                     def_name.clone(),
                                     state.is_scalar_type(target_type),
                                     field_definition.field_type.is_list(),
-                                    None,
+                                    edge_join_field.clone(),
                                     requirements.clone(),
                                     overridden_by.clone(),
                                 ),
@@ -870,18 +884,7 @@ impl Graph {
                             def_name.clone(),
                             state.is_scalar_type(target_type),
                             field_definition.field_type.is_list(),
-                            maybe_join_field.map(|join_field| match join_field.provides {
-                                Some(_) => {
-                                    // This is done in order to "reset" the provided field info, we can probably
-                                    // do this in a better way, and extract info from the JoinFieldDirective into the edges, instead of depending on
-                                    // the raw directive info.
-                                    // TODO: @dotan, can you explain it?
-                                    let mut new = join_field.clone();
-                                    new.provides = None;
-                                    new
-                                }
-                                None => join_field.clone(),
-                            }),
+                            edge_join_field.clone(),
                             requirements.clone(),
                             overridden_by.clone(),
                         ),
-- 
2.43.0


From fa0d6eb5c276a3591e21448612e300479049822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 10/29] fix: look for a token's key in every matching key set
 and skip non-signing keys

---
 bin/router/src/jwt/mod.rs | 52 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index c625691..95f210a 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -26,6 +26,13 @@ use crate::{
     shared_state::JwtClaimsCache,
 };
 
+fn matching_sets(jwks: &[Arc<JwkSet>], is_match: impl Fn(&Jwk) -> bool) -> Vec<&JwkSet> {
+    jwks.iter()
+        .map(Arc::as_ref)
+        .filter(|set| set.keys.iter().any(&is_match))
+        .collect()
+}
+
 pub struct JwtAuthRuntime {
     config: JwtAuthConfig,
     jwks: JwksManager,
@@ -124,36 +131,36 @@ impl JwtAuthRuntime {
         Err(LookupError::LookupFailed)
     }
 
+    /// Finds the key sets that may hold the key of a token. Several providers can use the same `kid`
+    /// (or the same `alg`), so all of them are candidates.
     pub(crate) fn find_matching_jwks<'a>(
         &'a self,
         jwt_header: &Header,
-        jwks: &'a Vec<Arc<JwkSet>>,
-    ) -> Result<&'a JwkSet, JwtError> {
+        jwks: &'a [Arc<JwkSet>],
+    ) -> Result<Vec<&'a JwkSet>, JwtError> {
         // If `kid` is vailable on the header, we can try to match it to the `kid` on the available JWKs.
         if let Some(jwt_kid) = &jwt_header.kid {
-            for jwk in jwks {
-                for key in &jwk.keys {
-                    if key.common.key_id.as_ref().is_some_and(|v| v == jwt_kid) {
-                        return Ok(jwk);
-                    }
-                }
+            let sets = matching_sets(jwks, |key| key.common.key_id.as_ref() == Some(jwt_kid));
+
+            if !sets.is_empty() {
+                return Ok(sets);
             }
         }
 
         // If we don't have `kid` on the token, we should try to match the `alg` field.
-        for jwk in jwks {
-            for key in &jwk.keys {
-                if let Some(key_alg) = key.common.key_algorithm {
-                    let key_alg_cmp = Algorithm::from_str(&key_alg.to_string())
-                        .map_err(JwtError::JwkAlgorithmNotSupported)?;
-                    if key_alg_cmp == jwt_header.alg {
-                        return Ok(jwk);
-                    }
-                }
-            }
+        // Keys of algorithms that are not used for signing (e.g. encryption keys) never match.
+        let sets = matching_sets(jwks, |key| {
+            key.common
+                .key_algorithm
+                .and_then(|alg| Algorithm::from_str(&alg.to_string()).ok())
+                .is_some_and(|alg| alg == jwt_header.alg)
+        });
+
+        if sets.is_empty() {
+            return Err(JwtError::FailedToLocateProvider);
         }
 
-        Err(JwtError::FailedToLocateProvider)
+        Ok(sets)
     }
 
     fn authenticate(
@@ -165,9 +172,10 @@ impl JwtAuthRuntime {
             Ok((maybe_prefix, token)) => {
                 // First, we need to decode the header to determine which provider to use.
                 let header = decode_header(&token).map_err(JwtError::InvalidJwtHeader)?;
-                let jwk = self.find_matching_jwks(&header, jwks)?;
+                let sets = self.find_matching_jwks(&header, jwks)?;
+                let keys: Vec<&Jwk> = sets.iter().flat_map(|set| &set.keys).collect();
 
-                self.decode_and_validate_token(&header, &token, &jwk.keys)
+                self.decode_and_validate_token(&header, &token, &keys)
                     .map(|token_data| (token_data, maybe_prefix, token))
             }
             Err(e) => {
@@ -182,7 +190,7 @@ impl JwtAuthRuntime {
         &self,
         header: &Header,
         token: &str,
-        jwks: &[Jwk],
+        jwks: &[&Jwk],
     ) -> Result<JwtTokenPayload, JwtError> {
         let decode_attempts = jwks
             .iter()
-- 
2.43.0


From a80be1b6bc42abe599b70433e6aedf6f8f08c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 11/29] fix: JWKS polling survives a stalled source and ignores
 error responses

---
 bin/router/src/jwt/jwks_manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/jwt/jwks_manager.rs b/bin/router/src/jwt/jwks_manager.rs
index 4622ada..b2524ba 100644
--- a/bin/router/src/jwt/jwks_manager.rs
+++ b/bin/router/src/jwt/jwks_manager.rs
@@ -3,12 +3,16 @@ use crate::config::jwt_auth::{JwksProviderSourceConfig, JwtAuthConfig};
 use crate::telemetry::logging::targets;
 use sonic_rs::from_str;
 use std::sync::{Arc, RwLock};
+use std::time::Duration;
 use tokio::fs::read_to_string;
 use tokio_util::sync::CancellationToken;
 use tracing::{debug, error, info};
 
 use jsonwebtoken::jwk::JwkSet;
 
+/// How long to wait for a remote source, including its whole response body.
+const REMOTE_JWKS_TIMEOUT: Duration = Duration::from_secs(10);
+
 pub struct JwksManager {
     sources: Vec<Arc<JwksSource>>,
 }
@@ -123,8 +127,11 @@ impl JwksSource {
 
                 let response_text = client
                     .get(url)
+                    // a stalled source must not stop the polling
+                    .timeout(REMOTE_JWKS_TIMEOUT)
                     .send()
                     .await
+                    .and_then(|response| response.error_for_status())
                     .map_err(JwksSourceError::RemoteJwksNetworkError)?
                     .text()
                     .await
-- 
2.43.0


From 50c6b48cc833a6dee1839d33ddf41867ced617ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 12/29] fix: a key set being replaced is not a missing key set

---
 bin/router/src/jwt/jwks_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/router/src/jwt/jwks_manager.rs b/bin/router/src/jwt/jwks_manager.rs
index b2524ba..6cbb5b3 100644
--- a/bin/router/src/jwt/jwks_manager.rs
+++ b/bin/router/src/jwt/jwks_manager.rs
@@ -186,7 +186,7 @@ impl JwksSource {
     }
 
     pub fn get_jwk_set(&self) -> Result<Arc<JwkSet>, JwksSourceError> {
-        if let Ok(jwk) = self.jwk.try_read() {
+        if let Ok(jwk) = self.jwk.read() {
             if let Some(jwk) = jwk.as_ref() {
                 return Ok(jwk.clone());
             }
-- 
2.43.0


From a5b01a6894fef3bd72fd167a7a0a0b76ace96cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 13/29] fix: pick up a supergraph file whose modification time
 is older than the last one's

A file moved or copied into place keeps its own time (rollback, rsync -t, ConfigMap
swap). Compare for any change instead of a strictly newer time.
---
 bin/router/src/supergraph/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/supergraph/file.rs b/bin/router/src/supergraph/file.rs
index 0cd78ec..324021a 100644
--- a/bin/router/src/supergraph/file.rs
+++ b/bin/router/src/supergraph/file.rs
@@ -28,7 +28,8 @@ impl SupergraphFileLoader {
         let current_time = file_metadata.modified()?;
         let mut modified_time = self.modified_time.write().await;
 
-        if modified_time.is_none() || current_time > modified_time.unwrap() {
+        // any different time is a change: a file that replaces another one may be the older one
+        if *modified_time != Some(current_time) {
             let content = fs::read_to_string(&self.file_path.absolute).await?;
             *modified_time = Some(current_time);
 
-- 
2.43.0


From 52620e963cf12f1ff77d12f043583d22a674da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 14/29] fix: a supergraph whose build panics no longer ends the
 reload task

E.g. a supergraph without a query type: the previous one kept serving, but no later
supergraph was ever applied.
---
 bin/router/src/schema_state.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/schema_state.rs b/bin/router/src/schema_state.rs
index c85be67..39c4e1d 100644
--- a/bin/router/src/schema_state.rs
+++ b/bin/router/src/schema_state.rs
@@ -26,7 +26,7 @@ use arc_swap::ArcSwap;
 use async_trait::async_trait;
 use dashmap::DashMap;
 use futures::stream::FuturesUnordered;
-use futures::StreamExt;
+use futures::{FutureExt, StreamExt};
 use graphql_tools::validation::utils::ValidationError;
 use hive_console_sdk::agent::usage_agent::UsageAgent;
 use http::Uri;
@@ -34,6 +34,7 @@ use moka::future::Cache;
 use ntex::web::HttpRequest;
 use std::collections::hash_map;
 use std::collections::{HashMap, HashSet, VecDeque};
+use std::panic::AssertUnwindSafe;
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -398,6 +399,9 @@ pub enum SupergraphManagerError {
 
     #[error("Invalid supergraph configuration: {0}")]
     Configuration(String),
+
+    #[error("Building the supergraph panicked")]
+    BuildPanicked,
 }
 
 fn supergraph_options(
@@ -743,15 +747,20 @@ impl SchemaState {
                     let process_capture = supergraph_metrics.capture_process();
                     debug!("Received new supergraph SDL, building new supergraph state...");
 
-                    match ConfiguredSupergraph::build(
+                    // an unusable supergraph may make its build panic: this must fail that one
+                    // supergraph, and not end the task that applies all the later ones
+                    let build = AssertUnwindSafe(ConfiguredSupergraph::build(
                         new_sdl,
                         &configured_spawn_clone,
                         router_config,
                         plugins.as_ref(),
                         &runtime_context_for_reload,
-                    )
+                    ))
+                    .catch_unwind()
                     .await
-                    {
+                    .unwrap_or(Err(SupergraphManagerError::BuildPanicked));
+
+                    match build {
                         Ok(new_configured) => {
                             // swapping in the new value here is enough: the previous
                             // `ConfiguredSupergraph`'s owner `Arc<Supergraph>` is only kept alive
-- 
2.43.0


From 016f08d028073f27d93b82523d4c1124b36e5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 15/29] fix: keep the supergraph etag only once its body
 arrived

A body that broke off left the new etag behind: the next poll was answered 304 and the
published supergraph was never loaded.
---
 lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs | 5 +++--
 lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs  | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
index 0c39fd4..a8f0f3b 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
@@ -78,12 +78,13 @@ impl SupergraphFetcher<SupergraphFetcherAsyncState> {
                 return Ok(None);
             }
 
-            let etag = last_resp.headers().get("etag");
-            self.update_latest_etag(etag).await;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .await
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // only a body that arrived completely counts as seen
+            self.update_latest_etag(etag.as_ref()).await;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
index 57a572c..718abd9 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
@@ -121,10 +121,12 @@ impl SupergraphFetcher<SupergraphFetcherSyncState> {
                 return Ok(None);
             }
 
-            self.update_latest_etag(last_resp.headers().get("etag"))?;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // only a body that arrived completely counts as seen
+            self.update_latest_etag(etag.as_ref())?;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
-- 
2.43.0


From ce3a6aba1fcfed4a2d04c0ea7614f06c61692e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 16/29] fix: do not keep a deduplicated subscription's upstream
 alive through the leader's leftover receiver

---
 bin/router/src/pipeline/mod.rs              |  8 ++--
 bin/router/src/pipeline/websocket_server.rs |  8 ++--
 bin/router/src/shared_state.rs              | 46 +++++++++++++++++----
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index a96e9d6..06b987c 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -46,7 +46,7 @@ use std::{
     collections::HashMap,
     hash::{Hash, Hasher},
     ops::{ControlFlow, Deref},
-    sync::Arc,
+    sync::{Arc, Mutex},
     time::Instant,
 };
 use tracing::{debug, error, warn, Instrument};
@@ -493,7 +493,7 @@ pub async fn graphql_request_handler(
         };
 
         let shared_response = if let Some(fp) = fingerprint {
-            let (shared_response, _role) = if is_subscription {
+            let (shared_response, role) = if is_subscription {
                 shared_state
                     .in_flight_requests
                     .claim(fp)
@@ -506,7 +506,7 @@ pub async fn graphql_request_handler(
                     .get_or_try_init(|| exec(None))
                     .await?
             };
-            Arc::unwrap_or_clone(shared_response)
+            SharedRouterResponse::for_consumer(shared_response, role)
         } else {
             exec(None).await?
         };
@@ -694,7 +694,7 @@ pub async fn execute_planned_request<'exec>(
                 body: sender,
                 headers,
                 error_count: result.error_count,
-                receiver: Some(receiver),
+                receiver: Mutex::new(Some(receiver)),
             }))
         }
         QueryPlanExecutionResult::Single(result) => {
diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index bf72440..20b5b76 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -635,7 +635,7 @@ async fn handle_text_frame(
                               .get_or_try_init(|| exec(None))
                               .await
                       };
-                      let (shared_response, _role) = match result {
+                      let (shared_response, role) = match result {
                           Ok(result) => result,
                           Err(PipelineError::Client(ClientPipelineError::JwtError(err))) => {
                               let _ = sink.send(err.clone().into_server_message(&id, shared_state)).await;
@@ -645,7 +645,7 @@ async fn handle_text_frame(
                           },
                           Err(err) => return Some(err.into_server_message(&id, shared_state)),
                       };
-                      Arc::unwrap_or_clone(shared_response)
+                      SharedRouterResponse::for_consumer(shared_response, role)
                   } else {
                       match exec(None).await {
                           Ok(result) => result,
@@ -712,9 +712,7 @@ async fn handle_text_frame(
                               id: id.clone(),
                           };
 
-                          let mut receiver = response
-                              .receiver
-                              .unwrap_or_else(|| response.body.subscribe());
+                          let mut receiver = response.subscribe();
 
                           let client_op_guard = shared_state.telemetry_context.metrics.subscriptions.active_client_operation(SubscriptionTransport::WebSocket);
                           let metrics = shared_state.telemetry_context.metrics.clone();
diff --git a/bin/router/src/shared_state.rs b/bin/router/src/shared_state.rs
index 7c031f4..5db9373 100644
--- a/bin/router/src/shared_state.rs
+++ b/bin/router/src/shared_state.rs
@@ -5,7 +5,7 @@ use crate::config::HiveRouterConfig;
 use crate::executor::coprocessor::{CoprocessorError, CoprocessorRuntime};
 use crate::executor::execution::plan::FailedExecutionResult;
 use crate::executor::executors::common::InboundRequestFingerprint;
-use crate::executor::executors::inflight::{InFlightCleanupGuard, InFlightMap};
+use crate::executor::executors::inflight::{InFlightCleanupGuard, InFlightMap, InFlightRole};
 use crate::executor::extensions::{compile::compile_extensions_plan, plan::ExtensionsPlan};
 use crate::executor::headers::sanitizer::is_never_join_header;
 use crate::executor::plugin_trait::RouterPluginBoxed;
@@ -24,7 +24,10 @@ use ntex::web;
 use ntex::{http::HeaderMap, util::Bytes};
 use std::sync::atomic::AtomicUsize;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
-use std::{collections::HashSet, sync::Arc};
+use std::{
+    collections::HashSet,
+    sync::{Arc, Mutex, PoisonError},
+};
 use tracing::debug;
 
 #[cfg(not(feature = "graphiql"))]
@@ -100,6 +103,21 @@ pub enum SharedRouterResponse {
 }
 
 impl SharedRouterResponse {
+    /// One consumer's own copy of a deduplicated response. A stream is subscribed to right
+    /// here, the leader takes over the receiver that was subscribed before the pump started.
+    pub fn for_consumer(shared: Arc<Self>, role: InFlightRole) -> Self {
+        if let SharedRouterResponse::Stream(stream) = shared.as_ref() {
+            let receiver = match role {
+                InFlightRole::Leader => stream.subscribe(),
+                InFlightRole::Joiner => stream.body.subscribe(),
+            };
+            return SharedRouterResponse::Stream(SharedRouterStreamResponse {
+                receiver: Mutex::new(Some(receiver)),
+                ..stream.clone()
+            });
+        }
+        Arc::unwrap_or_clone(shared)
+    }
     pub fn error_count(&self) -> usize {
         match self {
             SharedRouterResponse::Single(resp) => resp.error_count,
@@ -160,8 +178,10 @@ pub struct SharedRouterStreamResponse {
     pub error_count: usize,
     // the leader gets the receiver that was subscribed before the pump was spawned, so
     // there is no window where the channel has zero receivers and events can be lost.
+    // it must not outlive the leader: a receiver left behind in the deduplicated response
+    // keeps the upstream alive after all consumers are gone, see `for_consumer`.
     // joiners get None and subscribe via body.subscribe() when consumed.
-    pub receiver: Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>,
+    pub receiver: Mutex<Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>>,
 }
 
 impl Clone for SharedRouterStreamResponse {
@@ -170,21 +190,33 @@ impl Clone for SharedRouterStreamResponse {
             body: self.body.clone(),
             headers: self.headers.clone(),
             error_count: self.error_count,
-            receiver: None,
+            receiver: Mutex::new(None),
         }
     }
 }
 
 impl SharedRouterStreamResponse {
+    fn take_receiver(&self) -> Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>> {
+        self.receiver
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner)
+            .take()
+    }
+
+    /// The receiver of this consumer. The leader already has a pre-subscribed receiver to
+    /// avoid missing any potential events emitted. Joiners, on the other hand, subscribe.
+    pub fn subscribe(&self) -> tokio::sync::broadcast::Receiver<SubscriptionEvent> {
+        self.take_receiver()
+            .unwrap_or_else(|| self.body.subscribe())
+    }
+
     pub fn into_response(
         self,
         stream_content_type: &StreamContentType,
         metrics: &Arc<Metrics>,
         long_lived_client_guard: Option<LongLivedClientGuard>,
     ) -> web::HttpResponse {
-        // leader already has a pre-subscribed receiver to avoid missing
-        // any potential events emitted. joiners, on the other hand, subscribe
-        let mut receiver = self.receiver.unwrap_or_else(|| self.body.subscribe());
+        let mut receiver = self.subscribe();
 
         let transport = match stream_content_type {
             StreamContentType::IncrementalDelivery | StreamContentType::ApolloMultipartHTTP => {
-- 
2.43.0


From 90fd1b00fed2e1d068bd74bd740f963bc43eacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 17/29] fix: release a silent subscription upstream as soon as
 its last consumer is gone

---
 bin/router/src/pipeline/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 06b987c..fa5a6f1 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -666,6 +666,11 @@ pub async fn execute_planned_request<'exec>(
                                 None => break,
                             }
                         }
+                        // all receivers gone: do not wait for the next event of a silent
+                        // upstream to notice
+                        _ = producer_handle.sender().closed() => {
+                            break;
+                        }
                         _ = supergraph.snapshot.retired() => {
                             // the supergraph this subscription was selected from has been
                             // retired (configured reload, or the owning plugin dropped/replaced
-- 
2.43.0


From 2f26868d589ca27981b01d602906f0754b575052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 18/29] fix: find multipart subscription delimiters at line
 starts only and end markers that arrive in pieces

---
 .../executor/executors/multipart_subscribe.rs | 81 +++++++------------
 1 file changed, 30 insertions(+), 51 deletions(-)

diff --git a/bin/router/src/executor/executors/multipart_subscribe.rs b/bin/router/src/executor/executors/multipart_subscribe.rs
index 843a07b..1a293be 100644
--- a/bin/router/src/executor/executors/multipart_subscribe.rs
+++ b/bin/router/src/executor/executors/multipart_subscribe.rs
@@ -84,24 +84,40 @@ where
     B::Error: std::fmt::Display + Send,
 {
     let delimiter = format!("--{}", boundary);
-    let end_marker = format!("--{}--", boundary);
 
     let stream = async_stream::stream! {
         let mut body = body_stream;
         let mut buffer = Vec::<u8>::new();
         let mut started = false;
+        let mut after_delimiter = false;
 
         loop {
-            while let Some((part_end, skip_len, is_end)) = find_next_part(&buffer, &delimiter, &end_marker, started) {
+            loop {
+                if after_delimiter {
+                    // a delimiter followed by `--` ends the stream. the two may arrive apart
+                    if buffer.starts_with(b"--") {
+                        return;
+                    }
+                    if buffer.is_empty() || buffer == b"-" {
+                        break;
+                    }
+                    // the rest of the delimiter line is trimmed off the part's headers
+                    after_delimiter = false;
+                }
+
+                let Some(part_end) = find_delimiter(&buffer, &delimiter) else {
+                    break;
+                };
+                let part_bytes: Vec<u8> = buffer.drain(..part_end).collect();
+                buffer.drain(..delimiter.len());
+                after_delimiter = true;
+
+                // whatever precedes the first delimiter is not a part
                 if !started {
-                    buffer.drain(..skip_len);
                     started = true;
                     continue;
                 }
 
-                let part_bytes: Vec<u8> = buffer.drain(..part_end).collect();
-                buffer.drain(..skip_len);
-
                 if !part_bytes.is_empty() {
                     match parse_part(&part_bytes, custom_scalar_paths.as_ref()) {
                         Ok(Some(response)) => {
@@ -114,10 +130,6 @@ where
                         }
                     }
                 }
-
-                if is_end {
-                    return;
-                }
             }
 
             match body.frame().await {
@@ -144,47 +156,14 @@ where
     Box::pin(stream)
 }
 
-fn find_next_part(
-    buffer: &[u8],
-    delimiter: &str,
-    end_marker: &str,
-    started: bool,
-) -> Option<(usize, usize, bool)> {
-    let delimiter_b = delimiter.as_bytes();
-    let end_marker_b = end_marker.as_bytes();
-
-    let find_bytes = |haystack: &[u8], needle: &[u8]| -> Option<usize> {
-        haystack.windows(needle.len()).position(|w| w == needle)
-    };
-
-    if !started {
-        let pos = find_bytes(buffer, delimiter_b)?;
-        let after_delimiter = pos + delimiter_b.len();
-        let newline_pos = buffer[after_delimiter..].iter().position(|&b| b == b'\n')?;
-        let skip_len = after_delimiter + newline_pos + 1;
-        return Some((0, skip_len, false));
-    }
-
-    let next_delimiter_pos = find_bytes(buffer, delimiter_b)?;
-    let is_end = buffer[next_delimiter_pos..].starts_with(end_marker_b);
-
-    let skip_len = if is_end {
-        let after_end = next_delimiter_pos + end_marker_b.len();
-        if let Some(newline) = buffer[after_end..].iter().position(|&b| b == b'\n') {
-            end_marker_b.len() + newline + 1
-        } else {
-            end_marker_b.len()
-        }
-    } else {
-        let after_delimiter = next_delimiter_pos + delimiter_b.len();
-        if let Some(newline) = buffer[after_delimiter..].iter().position(|&b| b == b'\n') {
-            delimiter_b.len() + newline + 1
-        } else {
-            delimiter_b.len()
-        }
-    };
-
-    Some((next_delimiter_pos, skip_len, is_end))
+/// The position of the next delimiter. A delimiter stands at the beginning of a line: the same
+/// bytes inside of a part's payload do not end the part.
+fn find_delimiter(buffer: &[u8], delimiter: &str) -> Option<usize> {
+    let delimiter = delimiter.as_bytes();
+    buffer
+        .windows(delimiter.len())
+        .enumerate()
+        .position(|(pos, window)| window == delimiter && (pos == 0 || buffer[pos - 1] == b'\n'))
 }
 
 fn parse_part(
-- 
2.43.0


From 33ef5422f4f36fe0f161bfef19a8c0439b67fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 19/29] fix: accept WebSocket text messages sent in fragments

---
 .../executor/executors/websocket_common.rs    | 80 +++++++++++++------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/bin/router/src/executor/executors/websocket_common.rs b/bin/router/src/executor/executors/websocket_common.rs
index 5a66585..a5809bc 100644
--- a/bin/router/src/executor/executors/websocket_common.rs
+++ b/bin/router/src/executor/executors/websocket_common.rs
@@ -36,6 +36,8 @@ pub struct WsState<T> {
     /// - Server subscriptions map subscription IDs to their cancellation sender.
     /// - Client subscriptions map subscription IDs to their response senders.
     pub subscriptions: HashMap<String, T>,
+    /// The fragments received so far of a text message that is sent in fragments.
+    pub fragments: Vec<u8>,
 }
 
 impl<T> WsState<T> {
@@ -46,6 +48,7 @@ impl<T> WsState<T> {
             acknowledged_tx: Some(acknowledged_tx),
             init_payload: None,
             subscriptions: HashMap::new(),
+            fragments: Vec::new(),
         }
     }
 
@@ -77,6 +80,10 @@ pub const HEARTBEAT_TIMEOUT: Duration = Duration::from_secs(10);
 /// Handshake message received timeout.
 pub const HANDSHAKE_TIMEOUT: Duration = Duration::from_secs(10);
 
+/// The most bytes a text message sent in fragments may have, so that a peer cannot grow the
+/// buffer without bound.
+const MAX_MESSAGE_SIZE: usize = 10 * 1024 * 1024; // 10MB
+
 /// Ping peer every heartbeat interval.
 pub async fn heartbeat<T>(
     state: Rc<RefCell<WsState<T>>>,
@@ -156,21 +163,32 @@ pub fn parse_frame_to_text<T>(
     state: &Rc<RefCell<WsState<T>>>,
 ) -> Result<String, FrameNotParsedToText> {
     match frame {
-        ws::Frame::Text(text) => {
-            match String::from_utf8(text.to_vec()) {
-                Ok(s) => Ok(s),
-                Err(e) => {
-                    error!(target: targets::WEBSOCKET_CLIENT, error = ?e, "Invalid UTF-8 in WebSocket message");
-
-                    Err(FrameNotParsedToText::Message(ws::Message::Close(Some(
-                        // this one is not in the CloseCode enum because it's an internal WebSocket
-                        // transport error that has nothing to do with GraphQL over WebSockets
-                        ws::CloseReason {
-                            code: ws::CloseCode::Unsupported,
-                            description: Some("Invalid UTF-8 in message".into()),
-                        },
-                    ))))
+        ws::Frame::Text(text) => parse_text(text.to_vec()),
+        // a text message may arrive in fragments, control frames may come in between
+        ws::Frame::Continuation(item) => {
+            let (fragment, is_last) = match &item {
+                ws::Item::FirstText(fragment) => {
+                    state.borrow_mut().fragments.clear();
+                    (fragment, false)
                 }
+                ws::Item::Continue(fragment) => (fragment, false),
+                ws::Item::Last(fragment) => (fragment, true),
+                ws::Item::FirstBinary(_) => return Err(unsupported_message_type()),
+            };
+            let fragments = &mut state.borrow_mut().fragments;
+            if fragments.len() + fragment.len() > MAX_MESSAGE_SIZE {
+                return Err(FrameNotParsedToText::Message(ws::Message::Close(Some(
+                    ws::CloseReason {
+                        code: ws::CloseCode::Size,
+                        description: Some("Message too big".into()),
+                    },
+                ))));
+            }
+            fragments.extend_from_slice(fragment);
+            if is_last {
+                parse_text(std::mem::take(fragments))
+            } else {
+                Err(FrameNotParsedToText::None)
             }
         }
         ws::Frame::Ping(data) => {
@@ -182,14 +200,7 @@ pub fn parse_frame_to_text<T>(
             Err(FrameNotParsedToText::None)
         }
         // we don't support binary frames
-        ws::Frame::Binary(_) => Err(FrameNotParsedToText::Message(ws::Message::Close(Some(
-            ws::CloseReason {
-                // this one is not in the CloseCode enum because it's an internal WebSocket
-                // transport error that has nothing to do with GraphQL over WebSockets
-                code: ws::CloseCode::Unsupported,
-                description: Some("Unsupported message type".into()),
-            },
-        )))),
+        ws::Frame::Binary(_) => Err(unsupported_message_type()),
         ws::Frame::Close(reason) => {
             if let Some(close_reason) = reason {
                 debug!(target: targets::WEBSOCKET_CLIENT, code = ?close_reason.code, description = ?close_reason.description, "WebSocket connection closed");
@@ -197,6 +208,29 @@ pub fn parse_frame_to_text<T>(
 
             Err(FrameNotParsedToText::Closed)
         }
-        _ => Err(FrameNotParsedToText::None),
     }
 }
+
+fn parse_text(text: Vec<u8>) -> Result<String, FrameNotParsedToText> {
+    String::from_utf8(text).map_err(|e| {
+        error!(target: targets::WEBSOCKET_CLIENT, error = ?e, "Invalid UTF-8 in WebSocket message");
+
+        FrameNotParsedToText::Message(ws::Message::Close(Some(
+            // this one is not in the CloseCode enum because it's an internal WebSocket
+            // transport error that has nothing to do with GraphQL over WebSockets
+            ws::CloseReason {
+                code: ws::CloseCode::Unsupported,
+                description: Some("Invalid UTF-8 in message".into()),
+            },
+        )))
+    })
+}
+
+fn unsupported_message_type() -> FrameNotParsedToText {
+    FrameNotParsedToText::Message(ws::Message::Close(Some(ws::CloseReason {
+        // this one is not in the CloseCode enum because it's an internal WebSocket
+        // transport error that has nothing to do with GraphQL over WebSockets
+        code: ws::CloseCode::Unsupported,
+        description: Some("Unsupported message type".into()),
+    })))
+}
-- 
2.43.0


From a02e2a0c69f7d3e596b6acc50d5c0d1dbd93ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 20/29] fix: do not drop a subscription's failure when its
 buffer is full

---
 bin/router/src/executor/executors/subscription_buffer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/router/src/executor/executors/subscription_buffer.rs b/bin/router/src/executor/executors/subscription_buffer.rs
index 83600c4..64e5188 100644
--- a/bin/router/src/executor/executors/subscription_buffer.rs
+++ b/bin/router/src/executor/executors/subscription_buffer.rs
@@ -91,6 +91,14 @@ pub async fn drain_into<S>(
                 let Some(item) = item else {
                     break;
                 };
+                // a failure must not be dropped when the channel is full: the source ends with it
+                // and the consumer would take the end for a regular completion
+                if item.is_err() {
+                    if tx.send(item).await.is_err() {
+                        break;
+                    }
+                    continue;
+                }
                 if matches!(
                     try_send_or_drop(
                         &tx,
-- 
2.43.0


From 31ac2f05ea944c102386586857d72c56467ab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 21/29] fix: notice the disconnect of a streaming client while
 the stream is silent

---
 bin/router/src/pipeline/mod.rs |  1 +
 bin/router/src/shared_state.rs | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index fa5a6f1..0dcc0eb 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -547,6 +547,7 @@ pub async fn graphql_request_handler(
             response_mode,
             &shared_state.telemetry_context.metrics,
             long_lived_client_guard,
+            req.io(),
         )
     }
     .instrument(span_clone)
diff --git a/bin/router/src/shared_state.rs b/bin/router/src/shared_state.rs
index 5db9373..765d735 100644
--- a/bin/router/src/shared_state.rs
+++ b/bin/router/src/shared_state.rs
@@ -15,11 +15,12 @@ use crate::telemetry::metrics::subscription_metrics::SubscriptionTransport;
 use crate::telemetry::metrics::Metrics;
 use crate::telemetry::TelemetryContext;
 use crate::vrl::expressions::{BooleanOrProgram, ExpressionCompileError};
-use futures::Stream;
+use futures::{Stream, StreamExt};
 use graphql_tools::validation::validate::ValidationPlan;
 use http::StatusCode;
 use moka::future::Cache;
 use moka::Expiry;
+use ntex::io::IoRef;
 use ntex::web;
 use ntex::{http::HeaderMap, util::Bytes};
 use std::sync::atomic::AtomicUsize;
@@ -129,6 +130,7 @@ impl SharedRouterResponse {
         response_mode: &ResponseMode,
         metrics: &Arc<Metrics>,
         long_lived_client_guard: Option<LongLivedClientGuard>,
+        client_io: Option<&IoRef>,
     ) -> Result<web::HttpResponse, PipelineError> {
         match self {
             // dropping the guard here would be a leak for streams, but singles
@@ -138,7 +140,12 @@ impl SharedRouterResponse {
                 let stream_content_type = response_mode
                     .stream_content_type()
                     .ok_or(ClientPipelineError::SubscriptionsTransportNotSupported)?;
-                Ok(stream.into_response(stream_content_type, metrics, long_lived_client_guard))
+                Ok(stream.into_response(
+                    stream_content_type,
+                    metrics,
+                    long_lived_client_guard,
+                    client_io,
+                ))
             }
         }
     }
@@ -215,6 +222,7 @@ impl SharedRouterStreamResponse {
         stream_content_type: &StreamContentType,
         metrics: &Arc<Metrics>,
         long_lived_client_guard: Option<LongLivedClientGuard>,
+        client_io: Option<&IoRef>,
     ) -> web::HttpResponse {
         let mut receiver = self.subscribe();
 
@@ -230,6 +238,10 @@ impl SharedRouterStreamResponse {
         let client_conn_guard = metrics.subscriptions.active_client_connection(transport);
         let metrics = metrics.clone();
 
+        // the server only notices that the client is gone when there is something to write, and a
+        // silent subscription might have nothing to write ever again
+        let client_gone = client_io.map(|io| io.on_disconnect());
+
         let stream = Box::pin(async_stream::stream! {
             let _client_conn_guard = client_conn_guard;
             // holds the long-lived client slot until this client's stream ends
@@ -303,7 +315,10 @@ impl SharedRouterStreamResponse {
         // we set content type after so that we can override the shared header
         response.content_type(content_type_header);
 
-        response.streaming(body)
+        match client_gone {
+            Some(client_gone) => response.streaming(body.take_until(client_gone)),
+            None => response.streaming(body),
+        }
     }
 }
 
-- 
2.43.0


From 5b12c59d0ae0f7ecfbfe3b302ec47684c9af7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 22/29] fix: keep the lines of a multi-line value within its
 server-sent event

---
 bin/router/src/pipeline/sse.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/sse.rs b/bin/router/src/pipeline/sse.rs
index 9c9acb7..b61b3a4 100644
--- a/bin/router/src/pipeline/sse.rs
+++ b/bin/router/src/pipeline/sse.rs
@@ -21,9 +21,15 @@ pub fn create_stream(
                              match std::str::from_utf8(&resp) {
                                 Ok(json_str) => {
                                     let mut sse_event = ntex::util::BytesMut::with_capacity(json_str.len() + 25);
-                                    sse_event.put_slice(b"event: next\ndata: ");
-                                    sse_event.put_slice(json_str.as_bytes());
-                                    sse_event.put_slice(b"\n\n");
+                                    sse_event.put_slice(b"event: next\n");
+                                    // values forwarded from a subgraph as they came can span lines,
+                                    // and every line of the event's data needs a field name
+                                    for line in json_str.split(['\n', '\r']) {
+                                        sse_event.put_slice(b"data: ");
+                                        sse_event.put_slice(line.as_bytes());
+                                        sse_event.put_slice(b"\n");
+                                    }
+                                    sse_event.put_slice(b"\n");
                                     yield Ok(sse_event.freeze());
                                 }
                                 Err(e) => {
-- 
2.43.0


From 4b1afd3464480da84ee082e50f31164b7ea67a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 23/29] fix: do not drop a WebSocket subscription's error
 message when its buffer is full

---
 .../src/executor/executors/subscription_buffer.rs     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/executors/subscription_buffer.rs b/bin/router/src/executor/executors/subscription_buffer.rs
index 64e5188..7502890 100644
--- a/bin/router/src/executor/executors/subscription_buffer.rs
+++ b/bin/router/src/executor/executors/subscription_buffer.rs
@@ -66,6 +66,15 @@ pub fn try_send_or_drop<T>(
     }
 }
 
+/// Whether the item carries nothing but errors, the way an operation that failed ends
+/// (a WebSocket `error` message arrives as a response without data).
+fn is_failure(item: &SubscriptionItem) -> bool {
+    match item {
+        Ok(response) => response.errors.is_some() && response.data.is_null(),
+        Err(_) => true,
+    }
+}
+
 /// Forward every item from `source` into `tx`, dropping messages when the channel is full so
 /// the emitting subgraph is never throttled by a slow consumer (entity resolution, slow client,
 /// broadcaster lag). Returns when the source ends or the consumer drops the receiver.
@@ -93,7 +102,7 @@ pub async fn drain_into<S>(
                 };
                 // a failure must not be dropped when the channel is full: the source ends with it
                 // and the consumer would take the end for a regular completion
-                if item.is_err() {
+                if is_failure(&item) {
                     if tx.send(item).await.is_err() {
                         break;
                     }
-- 
2.43.0


From 9d944a0393a3c97ec5f478cbd8b24a4b20f42dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 24/29] fix: reserve the id of a WebSocket operation while it
 runs and let the client complete it at any time

---
 bin/router/src/pipeline/websocket_server.rs | 181 +++++++++++---------
 1 file changed, 104 insertions(+), 77 deletions(-)

diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index 20b5b76..e9cc3cd 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -213,11 +213,24 @@ async fn ws_service(
 struct SubscriptionGuard {
     state: WsStateRef,
     id: String,
+    // weak because a cleared map has to be seen as a cancellation
+    cancel_tx: mpsc::WeakSender<()>,
 }
 
 impl Drop for SubscriptionGuard {
     fn drop(&mut self) {
-        self.state.borrow_mut().subscriptions.remove(&self.id);
+        let mut state = self.state.borrow_mut();
+        // the client may have completed this operation and started another with the same id
+        let is_own = match (
+            state.subscriptions.get(&self.id),
+            self.cancel_tx.upgrade(),
+        ) {
+            (Some(active), Some(own)) => own.same_channel(active),
+            _ => false,
+        };
+        if is_own {
+            state.subscriptions.remove(&self.id);
+        }
         trace!(target: targets::WEBSOCKET_SERVER, id = %self.id, "Subscription removed from active subscriptions");
     }
 }
@@ -300,6 +313,20 @@ async fn handle_text_frame(
                 return Some(CloseCode::SubscriberAlreadyExists(id).into());
             }
 
+            // the id is taken from here on, whatever kind of operation it is, and the client
+            // can complete it (or disconnect) while it is still being prepared or executed
+            let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
+            let guard = SubscriptionGuard {
+                state: state.clone(),
+                id: id.clone(),
+                cancel_tx: cancel_tx.downgrade(),
+            };
+            state
+                .borrow_mut()
+                .subscriptions
+                .insert(id.clone(), cancel_tx);
+            let mut started_stream = None;
+
             let started_at = Instant::now();
             let operation_span = GraphQLOperationSpan::new();
             operation_span.record_hive_target(
@@ -307,7 +334,7 @@ async fn handle_text_frame(
             );
             let span_clone = operation_span.clone();
 
-            let result = async {
+            let execution = async {
                 let config = &shared_state.router_config.websocket;
 
                 let connection_init_headers = if config.headers.accepts_connection_headers() {
@@ -700,78 +727,7 @@ async fn handle_text_frame(
                           Some(ServerMessage::complete(&id))
                       }
                       SharedRouterResponse::Stream(response) => {
-                          let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
-
-                          state
-                              .borrow_mut()
-                              .subscriptions
-                              .insert(id.clone(), cancel_tx);
-
-                          let guard = SubscriptionGuard {
-                              state: state.clone(),
-                              id: id.clone(),
-                          };
-
-                          let mut receiver = response.subscribe();
-
-                          let client_op_guard = shared_state.telemetry_context.metrics.subscriptions.active_client_operation(SubscriptionTransport::WebSocket);
-                          let metrics = shared_state.telemetry_context.metrics.clone();
-
-                          trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Subscription started");
-
-                          let sink = sink.clone();
-                          let id_for_loop = id.clone();
-                          // must be spawned - blocking the frame handler would prevent
-                          // ClientMessage::Complete from being received and processed,
-                          // making cancellation impossible
-                          let log_scope = RequestLogScope::capture();
-                          rt::spawn(log_scope.scope(async move {
-                              let _guard = guard;
-                              let mut client_op_guard = client_op_guard;
-                              let mut cancelled = false;
-
-                              loop {
-                                  tokio::select! {
-                                      maybe_item = receiver.recv() => {
-                                          match maybe_item {
-                                              Ok(SubscriptionEvent::Raw(data)) => {
-                                                  let _ = sink.send(ServerMessage::next(&id_for_loop, &data)).await;
-                                                  metrics.subscriptions.record_client_sent(SubscriptionTransport::WebSocket);
-                                              }
-                                              Ok(SubscriptionEvent::Error(errors)) => {
-                                                  client_op_guard.set_end_reason(SubscriptionEndReason::Error);
-                                                  let _ = sink.send(ServerMessage::error(&id_for_loop, &errors)).await;
-                                                  break;
-                                              }
-                                              Err(tokio::sync::broadcast::error::RecvError::Lagged(n)) => {
-                                                  // NOTE: not warn to avoid log spam when receiver starts
-                                                  // lagging. users should rely on the lagged_messages
-                                                  // metric to detect slow consumers and tune accordingly
-                                                  debug!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, lagged = n, "Broadcast receiver lagged, dropping message");
-                                                  metrics.subscriptions.record_client_lag(SubscriptionTransport::WebSocket, n);
-                                                  continue;
-                                              }
-                                              Err(tokio::sync::broadcast::error::RecvError::Closed) => {
-                                                  client_op_guard.set_end_reason(SubscriptionEndReason::Completed);
-                                                  break;
-                                              }
-                                          }
-                                      }
-                                      _ = cancel_rx.recv() => {
-                                          cancelled = true;
-                                          break;
-                                      }
-                                  }
-                              }
-
-                              if cancelled {
-                                  trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription cancelled");
-                              } else {
-                                  trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription completed");
-                                  let _ = sink.send(ServerMessage::complete(&id_for_loop)).await;
-                              }
-                          }));
-
+                          started_stream = Some((response, RequestLogScope::capture()));
                           None
                       }
                   }
@@ -779,10 +735,81 @@ async fn handle_text_frame(
 
                 inner_res
             }
-            .instrument(span_clone)
-            .await;
+            .instrument(span_clone);
+
+            let result = tokio::select! {
+                biased;
+                _ = cancel_rx.recv() => {
+                    trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Operation cancelled before it was executed");
+                    return None;
+                }
+                result = execution => result,
+            };
 
-            result
+            let Some((response, log_scope)) = started_stream else {
+                return result;
+            };
+
+            let mut receiver = response.subscribe();
+
+            let mut client_op_guard = shared_state
+                .telemetry_context
+                .metrics
+                .subscriptions
+                .active_client_operation(SubscriptionTransport::WebSocket);
+            let metrics = shared_state.telemetry_context.metrics.clone();
+
+            trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Subscription started");
+
+            // must be spawned - blocking the frame handler would prevent
+            // ClientMessage::Complete from being received and processed,
+            // making cancellation impossible
+            rt::spawn(log_scope.scope(async move {
+                let last_message = loop {
+                    tokio::select! {
+                        maybe_item = receiver.recv() => {
+                            match maybe_item {
+                                Ok(SubscriptionEvent::Raw(data)) => {
+                                    let _ = sink.send(ServerMessage::next(&id, &data)).await;
+                                    metrics.subscriptions.record_client_sent(SubscriptionTransport::WebSocket);
+                                }
+                                Ok(SubscriptionEvent::Error(errors)) => {
+                                    client_op_guard.set_end_reason(SubscriptionEndReason::Error);
+                                    // an error ends the operation, no complete follows it
+                                    break Some(ServerMessage::error(&id, &errors));
+                                }
+                                Err(tokio::sync::broadcast::error::RecvError::Lagged(n)) => {
+                                    // NOTE: not warn to avoid log spam when receiver starts
+                                    // lagging. users should rely on the lagged_messages
+                                    // metric to detect slow consumers and tune accordingly
+                                    debug!(target: targets::WEBSOCKET_SERVER, id = %id, lagged = n, "Broadcast receiver lagged, dropping message");
+                                    metrics.subscriptions.record_client_lag(SubscriptionTransport::WebSocket, n);
+                                    continue;
+                                }
+                                Err(tokio::sync::broadcast::error::RecvError::Closed) => {
+                                    client_op_guard.set_end_reason(SubscriptionEndReason::Completed);
+                                    break Some(ServerMessage::complete(&id));
+                                }
+                            }
+                        }
+                        _ = cancel_rx.recv() => {
+                            break None;
+                        }
+                    }
+                };
+
+                // the client is free to use the id again once it gets the last message
+                drop(guard);
+
+                if let Some(message) = last_message {
+                    trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Subscription completed");
+                    let _ = sink.send(message).await;
+                } else {
+                    trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Subscription cancelled");
+                }
+            }));
+
+            None
         }
         ClientMessage::Complete { id } => {
             if let Some(msg) = state.borrow().check_acknowledged() {
-- 
2.43.0


From d7b2718fc14d93d0de663f96deb74df5258fb1c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 25/29] fix: end WebSocket connections after their close frame
 and release operations of disconnected clients

---
 .../executor/executors/websocket_client.rs    |  12 +-
 .../executor/executors/websocket_common.rs    |  65 ++++++++---
 bin/router/src/pipeline/websocket_server.rs   | 104 +++++++++++++-----
 3 files changed, 136 insertions(+), 45 deletions(-)

diff --git a/bin/router/src/executor/executors/websocket_client.rs b/bin/router/src/executor/executors/websocket_client.rs
index e9382dc..5ff103b 100644
--- a/bin/router/src/executor/executors/websocket_client.rs
+++ b/bin/router/src/executor/executors/websocket_client.rs
@@ -22,7 +22,8 @@ use crate::executor::{
     executors::{
         graphql_transport_ws::{ClientMessage, CloseCode, ConnectionInitPayload, ServerMessage},
         websocket_common::{
-            handshake_timeout, heartbeat, parse_frame_to_text, FrameNotParsedToText, WsState,
+            handshake_timeout, heartbeat, heartbeat_timeout_close_frame, parse_frame_to_text,
+            FrameNotParsedToText, WsState,
         },
     },
     response::graphql_error::GraphQLError,
@@ -206,7 +207,14 @@ impl WsClient<Connected> {
 
         // heartbeats
         let (heartbeat_stop_tx, heartbeat_stop_rx) = oneshot::channel();
-        rt::spawn(heartbeat(state.clone(), sink.clone(), heartbeat_stop_rx));
+        let (heartbeat_state, heartbeat_sink) = (state.clone(), sink.clone());
+        rt::spawn(async move {
+            if heartbeat(heartbeat_state, heartbeat_sink.clone(), heartbeat_stop_rx).await {
+                let _ = heartbeat_sink.send(heartbeat_timeout_close_frame()).await;
+                // nobody is there to end the connection
+                heartbeat_sink.io().close();
+            }
+        });
 
         // handshake timeout monitor will close connection if no ack received in time
         rt::spawn(handshake_timeout(
diff --git a/bin/router/src/executor/executors/websocket_common.rs b/bin/router/src/executor/executors/websocket_common.rs
index a5809bc..34ea2fb 100644
--- a/bin/router/src/executor/executors/websocket_common.rs
+++ b/bin/router/src/executor/executors/websocket_common.rs
@@ -3,6 +3,7 @@ use std::{cell::RefCell, collections::HashMap, rc::Rc, time::Duration, time::Ins
 use crate::telemetry::logging::targets;
 use ntex::{
     channel::oneshot,
+    rt,
     util::Bytes,
     ws::{self, WsSink},
 };
@@ -38,6 +39,9 @@ pub struct WsState<T> {
     pub subscriptions: HashMap<String, T>,
     /// The fragments received so far of a text message that is sent in fragments.
     pub fragments: Vec<u8>,
+    /// Set once this side sends a close frame: nothing the peer sends afterwards is handled
+    /// and nothing else is sent to it.
+    pub closing: bool,
 }
 
 impl<T> WsState<T> {
@@ -49,6 +53,7 @@ impl<T> WsState<T> {
             init_payload: None,
             subscriptions: HashMap::new(),
             fragments: Vec::new(),
+            closing: false,
         }
     }
 
@@ -84,12 +89,50 @@ pub const HANDSHAKE_TIMEOUT: Duration = Duration::from_secs(10);
 /// buffer without bound.
 const MAX_MESSAGE_SIZE: usize = 10 * 1024 * 1024; // 10MB
 
-/// Ping peer every heartbeat interval.
+/// How long the peer has to end the connection after it was sent a close frame.
+pub const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
+
+/// Sends the close frame as the last message of the connection: active subscriptions are dropped
+/// and the connection is ended if the peer does not do so itself within the given time.
+pub fn close<T: 'static>(
+    state: &Rc<RefCell<WsState<T>>>,
+    sink: WsSink,
+    close_frame: ws::Message,
+    timeout: Duration,
+) {
+    let subscriptions = {
+        let mut state = state.borrow_mut();
+        if state.closing {
+            return;
+        }
+        state.closing = true;
+        std::mem::take(&mut state.subscriptions)
+    };
+    drop(subscriptions);
+    rt::spawn(async move {
+        let _ = sink.send(close_frame).await;
+        tokio::select! {
+            _ = tokio::time::sleep(timeout) => sink.io().close(),
+            _ = sink.on_disconnect() => {}
+        }
+    });
+}
+
+/// The close frame for a peer that does not answer pings.
+///
+/// It is violating the WebSocket protocol by not responding to the PING frames with PONG frames as
+/// required by the spec, so we use the "Protocol Error" to close the connection.
+pub fn heartbeat_timeout_close_frame() -> ws::Message {
+    ws::Message::Close(Some(ws::CloseCode::Protocol.into()))
+}
+
+/// Ping peer every heartbeat interval. Returns true if the peer stopped answering and the
+/// connection has to be closed.
 pub async fn heartbeat<T>(
     state: Rc<RefCell<WsState<T>>>,
     sink: WsSink,
     mut stop_rx: oneshot::Receiver<()>,
-) {
+) -> bool {
     loop {
         tokio::select! {
             _ = tokio::time::sleep(HEARTBEAT_INTERVAL) => {
@@ -97,15 +140,7 @@ pub async fn heartbeat<T>(
                 {
                     debug!(target: targets::WEBSOCKET_CLIENT, "WebSocket heartbeat timeout, closing connection");
 
-                    let _ = sink
-                        .send(ws::Message::Close(Some(
-                            // client is violating the WebSocket protocol by not responding
-                            // to the PING frames with PONG frames as required by the spec,
-                            // so we use the "Protocol Error" to close the connection
-                            ws::CloseCode::Protocol.into(),
-                        )))
-                        .await;
-                    return;
+                    return true;
                 }
                 if sink
                     .send(ws::Message::Ping(Bytes::default()))
@@ -114,17 +149,17 @@ pub async fn heartbeat<T>(
                 {
                     warn!(target: targets::WEBSOCKET_CLIENT, "Failed to send WebSocket heartbeat ping, stopping heartbeat task");
 
-                    return;
+                    return false;
                 }
             }
-            _ = &mut stop_rx => return,
+            _ = &mut stop_rx => return false,
         }
     }
 }
 
 /// Monitor handshake timeout and close connection if handshake not completed in time. Uses the provided
 /// close code to close the connection on timeout.
-pub async fn handshake_timeout<T>(
+pub async fn handshake_timeout<T: 'static>(
     state: Rc<RefCell<WsState<T>>>,
     sink: WsSink,
     mut stop_rx: oneshot::Receiver<()>,
@@ -137,7 +172,7 @@ pub async fn handshake_timeout<T>(
             if !state.borrow().handshake_received {
                 warn!(target: targets::WEBSOCKET_CLIENT, "WebSocket handshake timeout, closing connection");
 
-                let _ = sink.send(timeout_close_code.into()).await;
+                close(&state, sink, timeout_close_code.into(), CLOSE_TIMEOUT);
             }
         }
         _ = &mut stop_rx => {
diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index e9cc3cd..7faf702 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -14,7 +14,7 @@ use std::collections::HashMap;
 use std::io;
 use std::rc::Rc;
 use std::sync::Arc;
-use std::time::Instant;
+use std::time::{Duration, Instant};
 use tokio::sync::mpsc;
 use tracing::{debug, error, trace, warn, Instrument};
 
@@ -22,7 +22,8 @@ use crate::executor::executors::graphql_transport_ws::{
     ClientMessage, CloseCode, ConnectionInitPayload, ServerMessage, WS_SUBPROTOCOL,
 };
 use crate::executor::executors::websocket_common::{
-    handshake_timeout, heartbeat, parse_frame_to_text, FrameNotParsedToText, WsState,
+    close, handshake_timeout, heartbeat, heartbeat_timeout_close_frame, parse_frame_to_text,
+    FrameNotParsedToText, WsState, CLOSE_TIMEOUT,
 };
 use crate::executor::hooks::on_graphql_params::GraphQLParams;
 use crate::executor::plugin_context::{PluginContext, PluginRequestState, RouterHttpRequest};
@@ -113,7 +114,6 @@ async fn ws_service(
 {
     if !has_accepted_subprotocol {
         warn!(target: targets::WEBSOCKET_SERVER, "websocket connection rejecting due to unacceptable subprotocol");
-        let _ = sink.send(CloseCode::SubprotocolNotAcceptable.into()).await;
         // we dont return an Err here because we want to gracefully close the
         // connection for the client side with a close frame. returning an Err
         // would result in an abrupt termination of the connection
@@ -148,7 +148,33 @@ async fn ws_service(
 
     let state: WsStateRef = Rc::new(RefCell::new(WsState::new(acknowledged_tx)));
 
-    rt::spawn(heartbeat(state.clone(), sink.clone(), heartbeat_rx));
+    if !has_accepted_subprotocol {
+        close(
+            &state,
+            sink.clone(),
+            CloseCode::SubprotocolNotAcceptable.into(),
+            CLOSE_TIMEOUT,
+        );
+    }
+
+    let (heartbeat_state, heartbeat_sink) = (state.clone(), sink.clone());
+    rt::spawn(async move {
+        if heartbeat(
+            heartbeat_state.clone(),
+            heartbeat_sink.clone(),
+            heartbeat_rx,
+        )
+        .await
+        {
+            // nobody is there to end the connection
+            close(
+                &heartbeat_state,
+                heartbeat_sink,
+                heartbeat_timeout_close_frame(),
+                Duration::ZERO,
+            );
+        }
+    });
     rt::spawn(handshake_timeout(
         state.clone(),
         sink.clone(),
@@ -168,26 +194,44 @@ async fn ws_service(
         let ws_path = ws_path.clone();
         let req = req.clone();
         async move {
-            match parse_frame_to_text(frame, &state) {
-                Ok(text) => Ok(handle_text_frame(
-                    text,
-                    sink,
-                    state,
-                    &schema_state,
-                    &shared_state,
-                    &req,
-                    plugin_context,
-                    &request_context,
-                    &ws_uri,
-                    &ws_path,
-                )
-                .await),
-                Err(FrameNotParsedToText::Message(msg)) => Ok(Some(msg)),
+            // nothing is served once the close frame is sent
+            if state.borrow().closing {
+                return Ok(None);
+            }
+            let reply = match parse_frame_to_text(frame, &state) {
+                Ok(text) => {
+                    handle_text_frame(
+                        text,
+                        sink.clone(),
+                        state.clone(),
+                        &schema_state,
+                        &shared_state,
+                        &req,
+                        plugin_context,
+                        &request_context,
+                        &ws_uri,
+                        &ws_path,
+                    )
+                    .await
+                }
+                Err(FrameNotParsedToText::Message(msg)) => Some(msg),
                 Err(FrameNotParsedToText::Closed) => {
-                    // we dont need to emit anything here because the conneciton is already closed
+                    // we dont need to emit anything here because the conneciton is already closed,
+                    // but the operations still running have to end
+                    state.borrow_mut().closing = true;
+                    state.borrow_mut().subscriptions.clear();
+                    None
+                }
+                Err(FrameNotParsedToText::None) => None,
+            };
+            match reply {
+                Some(close_frame @ ws::Message::Close(_)) => {
+                    close(&state, sink, close_frame, CLOSE_TIMEOUT);
                     Ok(None)
                 }
-                Err(FrameNotParsedToText::None) => Ok(None),
+                // the close frame was sent while this message was handled
+                Some(_) if state.borrow().closing => Ok(None),
+                reply => Ok(reply),
             }
         }
     });
@@ -221,10 +265,7 @@ impl Drop for SubscriptionGuard {
     fn drop(&mut self) {
         let mut state = self.state.borrow_mut();
         // the client may have completed this operation and started another with the same id
-        let is_own = match (
-            state.subscriptions.get(&self.id),
-            self.cancel_tx.upgrade(),
-        ) {
+        let is_own = match (state.subscriptions.get(&self.id), self.cancel_tx.upgrade()) {
             (Some(active), Some(own)) => own.same_channel(active),
             _ => false,
         };
@@ -743,6 +784,11 @@ async fn handle_text_frame(
                     trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Operation cancelled before it was executed");
                     return None;
                 }
+                // the service is not shut down as long as a message is being handled
+                _ = sink.on_disconnect() => {
+                    trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Client disconnected before the operation was executed");
+                    return None;
+                }
                 result = execution => result,
             };
 
@@ -767,6 +813,11 @@ async fn handle_text_frame(
             rt::spawn(log_scope.scope(async move {
                 let last_message = loop {
                     tokio::select! {
+                        // nothing is sent after the client completed the operation
+                        biased;
+                        _ = cancel_rx.recv() => {
+                            break None;
+                        }
                         maybe_item = receiver.recv() => {
                             match maybe_item {
                                 Ok(SubscriptionEvent::Raw(data)) => {
@@ -792,9 +843,6 @@ async fn handle_text_frame(
                                 }
                             }
                         }
-                        _ = cancel_rx.recv() => {
-                            break None;
-                        }
                     }
                 };
 
-- 
2.43.0


From 2550d4f058e223a3f44002297c0b1463cfd43936 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 26/29] fix: a WebSocket connection keeps its long-lived client
 slot for as long as it lives

---
 .../src/pipeline/long_lived_client_limit.rs   | 52 +++++--------------
 bin/router/src/pipeline/websocket_server.rs   | 10 ++++
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/bin/router/src/pipeline/long_lived_client_limit.rs b/bin/router/src/pipeline/long_lived_client_limit.rs
index 320fff4..82c3270 100644
--- a/bin/router/src/pipeline/long_lived_client_limit.rs
+++ b/bin/router/src/pipeline/long_lived_client_limit.rs
@@ -1,17 +1,11 @@
-use std::{
-    rc::Rc,
-    sync::{
-        atomic::{AtomicUsize, Ordering},
-        Arc,
-    },
-    task::{Context, Poll},
+use std::sync::{
+    atomic::{AtomicUsize, Ordering},
+    Arc,
 };
 
 use http::{header, StatusCode};
 use ntex::{
-    http::body::{Body, BodySize, MessageBody},
     service::{Service, ServiceCtx},
-    util::Bytes,
     web::{self, DefaultError},
     Middleware, SharedCfg,
 };
@@ -103,21 +97,24 @@ where
             }
         };
 
+        // the handler takes the guard over for as long as the connection lives, the response to
+        // the upgrade request is over as soon as the handshake is done
+        req.extensions_mut().insert(guard);
+
         let response = ctx.call(&self.service, req).await?;
 
-        // wrap the body so the guard lives until the connection is fully closed
-        let response = response.map_body(|_head, body| {
-            let wrapped = GuardedBody {
-                inner: body.into_body().into(),
-                _guard: guard,
-            };
-            Body::from_message(wrapped).into()
-        });
+        // not taken, the connection was not upgraded
+        drop(take_long_lived_client_guard(response.request()));
 
         Ok(response)
     }
 }
 
+/// Takes over the slot reserved for the WebSocket connection this request asks for.
+pub fn take_long_lived_client_guard(req: &web::HttpRequest) -> Option<LongLivedClientGuard> {
+    req.extensions_mut().remove::<LongLivedClientGuard>()
+}
+
 /// The long-lived client limit has been reached, no slot could be reserved.
 pub struct LongLivedClientLimitReached;
 
@@ -171,27 +168,6 @@ impl Drop for LongLivedClientGuard {
     }
 }
 
-// wraps the body and keeps the guard alive until it's fully consumed and dropped.
-// one extra vtable call per chunk on top of the Box<dyn MessageBody> dispatch streaming bodies
-// already go through - negligible next to actual I/O cost per chunk.
-struct GuardedBody {
-    inner: Body,
-    _guard: LongLivedClientGuard,
-}
-
-impl MessageBody for GuardedBody {
-    fn size(&self) -> BodySize {
-        self.inner.size()
-    }
-
-    fn poll_next_chunk(
-        &mut self,
-        cx: &mut Context<'_>,
-    ) -> Poll<Option<Result<Bytes, Rc<dyn std::error::Error>>>> {
-        self.inner.poll_next_chunk(cx)
-    }
-}
-
 // websocket: Connection: Upgrade + Upgrade: websocket
 // both headers must be present and contain the expected values (case-insensitive)
 #[inline]
diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index 7faf702..8da8dd7 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -42,6 +42,9 @@ use crate::pipeline::error::{ClientPipelineError, PipelineError};
 use crate::pipeline::execute_planned_request;
 use crate::pipeline::execution_request::{OperationPreparation, OperationPreparationResult};
 use crate::pipeline::header::{ResponseMode, SingleContentType, StreamContentType};
+use crate::pipeline::long_lived_client_limit::{
+    take_long_lived_client_guard, LongLivedClientGuard,
+};
 use crate::pipeline::{
     connection_fingerprint, hash_graphql_extensions, hash_graphql_variables,
     inbound_request_fingerprint, normalize::normalize_request_with_cache,
@@ -75,10 +78,13 @@ pub async fn ws_index(
         Err(_) => return Ok(HttpResponse::BadRequest().finish()),
     };
 
+    let long_lived_client_guard = Rc::new(RefCell::new(take_long_lived_client_guard(&req)));
+
     ws::start(
         req.clone(),
         accepted_subprotocol,
         fn_factory_with_config(move |sink: ws::WsSink| {
+            let long_lived_client_guard = long_lived_client_guard.borrow_mut().take();
             let schema_state = schema_state.clone();
             let shared_state = shared_state.clone();
             let plugin_context = plugin_context.clone();
@@ -93,6 +99,7 @@ pub async fn ws_index(
                     req,
                     plugin_context,
                     request_context,
+                    long_lived_client_guard,
                 )
                 .await
             }
@@ -110,6 +117,7 @@ async fn ws_service(
     req: HttpRequest,
     plugin_context: Option<Arc<PluginContext>>,
     request_context: SharedRequestContext,
+    long_lived_client_guard: Option<LongLivedClientGuard>,
 ) -> Result<impl Service<ws::Frame, Response = Option<ws::Message>, Error = io::Error>, web::Error>
 {
     if !has_accepted_subprotocol {
@@ -248,6 +256,8 @@ async fn ws_service(
         state.borrow_mut().subscriptions.clear();
         // drop conn_guard here to decrement the connection counter
         drop(conn_guard);
+        // and the slot of this client here
+        drop(long_lived_client_guard);
     });
 
     Ok(chain(service).and_then(on_shutdown))
-- 
2.43.0


From 25fdeedbc8c07c6a0398d896ed123e1572880c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 27/29] fix: serve operations that arrive while their pooled
 WebSocket connection expires

---
 .../src/executor/executors/websocket_pool.rs  | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/bin/router/src/executor/executors/websocket_pool.rs b/bin/router/src/executor/executors/websocket_pool.rs
index 8c6cd54..bbb4634 100644
--- a/bin/router/src/executor/executors/websocket_pool.rs
+++ b/bin/router/src/executor/executors/websocket_pool.rs
@@ -606,9 +606,10 @@ impl ConnectionShutdown {
 
 /// Owns the non-`Send` WebSocket client and serializes all writes to its protocol state.
 ///
-/// The owner closes command intake before eviction and drains every command accepted before the
-/// close. This gives each submitter either a started operation or an explicit error, including when
-/// idle expiration races with command submission.
+/// When the connection is lost, the owner closes command intake before eviction and drains every
+/// command accepted before the close. This gives each submitter either a started operation or an
+/// explicit error. When idle expiration races with command submission, the operation is served: an
+/// idle connection is evicted first and closed only when nobody who looked it up before is left.
 struct ConnectionOwner {
     client: WsClient<crate::executor::executors::websocket_client::Initialized>,
     dispatcher_done: ntex::channel::oneshot::Receiver<WsClientError>,
@@ -638,17 +639,26 @@ impl ConnectionOwner {
         let mut active_operations = 0usize;
         let idle_timer = tokio::time::sleep(self.idle_timeout);
         tokio::pin!(idle_timer);
+        let mut idle = false;
+        let mut commands_closed = false;
 
         let shutdown = 'connection: loop {
             tokio::select! {
-                command = self.commands.recv() => {
+                command = self.commands.recv(), if !commands_closed => {
                     let Some(ConnectionCommand {
                         payload,
                         custom_scalar_paths,
                         responses,
                         ready,
                     }) = command else {
-                        break ConnectionShutdown::CommandsClosed;
+                        if !idle {
+                            break ConnectionShutdown::CommandsClosed;
+                        }
+                        if active_operations == 0 {
+                            break ConnectionShutdown::Idle;
+                        }
+                        commands_closed = true;
+                        continue;
                     };
 
                     if responses.is_closed() {
@@ -718,6 +728,9 @@ impl ConnectionOwner {
                 Some(()) = completed_rx.recv(), if active_operations > 0 => {
                     active_operations -= 1;
                     if active_operations == 0 {
+                        if commands_closed {
+                            break ConnectionShutdown::Idle;
+                        }
                         idle_timer
                             .as_mut()
                             .reset(Instant::now() + self.idle_timeout);
@@ -728,8 +741,11 @@ impl ConnectionOwner {
                         dispatcher.unwrap_or(WsClientError::MessageDispatcherClosed),
                     );
                 }
-                _ = &mut idle_timer, if active_operations == 0 => {
-                    break ConnectionShutdown::Idle;
+                _ = &mut idle_timer, if active_operations == 0 && !idle => {
+                    // nobody finds the connection from here on. it is closed once those who found
+                    // it before have dropped their executor, so that none of their commands fails
+                    idle = true;
+                    self.evict();
                 }
             }
         };
-- 
2.43.0


From 8c9ff9347bd83137fdd86c54039c8d308a0a7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:28 +0000
Subject: [PATCH 28/29] fix: end subscribers that join a subscription after its
 error with that error

---
 .../src/pipeline/active_subscriptions.rs      | 71 ++++++++++++++++---
 bin/router/src/shared_state.rs                | 12 ++--
 2 files changed, 70 insertions(+), 13 deletions(-)

diff --git a/bin/router/src/pipeline/active_subscriptions.rs b/bin/router/src/pipeline/active_subscriptions.rs
index cf7b813..eaca2e5 100644
--- a/bin/router/src/pipeline/active_subscriptions.rs
+++ b/bin/router/src/pipeline/active_subscriptions.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::executor::response::graphql_error::GraphQLError;
 use crate::telemetry::logging::targets;
@@ -22,9 +22,58 @@ pub enum SubscriptionEvent {
     Error(Vec<GraphQLError>),
 }
 
+/// The sending half of a subscription's broadcast channel. Remembers the error that ended the
+/// subscription: consumers that subscribe after it was sent (joiners of a deduplicated
+/// subscription that ended right after it was opened) must not take the end for a completion.
+#[derive(Clone)]
+pub struct SubscriptionSender {
+    sender: broadcast::Sender<SubscriptionEvent>,
+    failure: Arc<OnceLock<Vec<GraphQLError>>>,
+}
+
+impl SubscriptionSender {
+    fn send(&self, item: SubscriptionEvent) -> bool {
+        if let SubscriptionEvent::Error(errors) = &item {
+            let _ = self.failure.set(errors.clone());
+        }
+        self.sender.send(item).is_ok()
+    }
+
+    pub fn subscribe(&self) -> SubscriptionReceiver {
+        SubscriptionReceiver {
+            receiver: self.sender.subscribe(),
+            failure: self.failure.clone(),
+        }
+    }
+
+    /// Resolves when all consumers are gone.
+    pub async fn closed(&self) {
+        self.sender.closed().await
+    }
+}
+
+/// The receiving half of a subscription's broadcast channel, one per consumer.
+pub struct SubscriptionReceiver {
+    receiver: broadcast::Receiver<SubscriptionEvent>,
+    failure: Arc<OnceLock<Vec<GraphQLError>>>,
+}
+
+impl SubscriptionReceiver {
+    pub async fn recv(&mut self) -> Result<SubscriptionEvent, broadcast::error::RecvError> {
+        match self.receiver.recv().await {
+            Err(broadcast::error::RecvError::Closed) => match self.failure.get() {
+                // sent before this consumer subscribed
+                Some(errors) => Ok(SubscriptionEvent::Error(errors.clone())),
+                None => Err(broadcast::error::RecvError::Closed),
+            },
+            received => received,
+        }
+    }
+}
+
 #[derive(Clone)]
 pub struct ActiveSubscriptions {
-    map: Arc<DashMap<SubscriptionId, broadcast::Sender<SubscriptionEvent>>>,
+    map: Arc<DashMap<SubscriptionId, SubscriptionSender>>,
     broadcast_capacity: usize,
 }
 
@@ -43,8 +92,14 @@ impl ActiveSubscriptions {
     pub fn register(
         &self,
         guard: Option<SharedRouterResponseGuard>,
-    ) -> (ProducerHandle, broadcast::Receiver<SubscriptionEvent>) {
+    ) -> (ProducerHandle, SubscriptionReceiver) {
         let (sender, receiver) = broadcast::channel(self.broadcast_capacity);
+        let failure = Arc::new(OnceLock::new());
+        let receiver = SubscriptionReceiver {
+            receiver,
+            failure: failure.clone(),
+        };
+        let sender = SubscriptionSender { sender, failure };
         let id = Ulid::generate().to_string();
         self.map.insert(id.clone(), sender.clone());
 
@@ -64,7 +119,7 @@ impl ActiveSubscriptions {
     pub fn close_all_with_error(&self, errors: Vec<GraphQLError>) {
         let item = SubscriptionEvent::Error(errors);
         for entry in self.map.iter() {
-            let _ = entry.send(item.clone());
+            entry.send(item.clone());
         }
         self.map.clear();
     }
@@ -75,19 +130,19 @@ impl ActiveSubscriptions {
 /// cleanup guard - which removes the dedupe entry so new requests start a fresh upstream.
 pub struct ProducerHandle {
     id: SubscriptionId,
-    map: Arc<DashMap<SubscriptionId, broadcast::Sender<SubscriptionEvent>>>,
-    sender: broadcast::Sender<SubscriptionEvent>,
+    map: Arc<DashMap<SubscriptionId, SubscriptionSender>>,
+    sender: SubscriptionSender,
     _guard: Option<SharedRouterResponseGuard>,
 }
 
 impl ProducerHandle {
-    pub fn sender(&self) -> &broadcast::Sender<SubscriptionEvent> {
+    pub fn sender(&self) -> &SubscriptionSender {
         &self.sender
     }
 
     /// Returns false when all consumers have gone and the event cannot be delivered.
     pub fn send(&self, item: SubscriptionEvent) -> bool {
-        self.sender.send(item).is_ok()
+        self.sender.send(item)
     }
 }
 
diff --git a/bin/router/src/shared_state.rs b/bin/router/src/shared_state.rs
index 765d735..f131fce 100644
--- a/bin/router/src/shared_state.rs
+++ b/bin/router/src/shared_state.rs
@@ -35,7 +35,9 @@ use tracing::debug;
 use crate::http_utils::laboratory::{render_laboratory_html, LaboratoryConfigError};
 use crate::jwt::context::JwtTokenPayload;
 use crate::jwt::JwtAuthRuntime;
-use crate::pipeline::active_subscriptions::{ActiveSubscriptions, SubscriptionEvent};
+use crate::pipeline::active_subscriptions::{
+    ActiveSubscriptions, SubscriptionEvent, SubscriptionReceiver, SubscriptionSender,
+};
 use crate::pipeline::cors::{CORSConfigError, Cors};
 use crate::pipeline::error::{ClientPipelineError, PipelineError};
 use crate::pipeline::header::{ResponseMode, StreamContentType};
@@ -180,7 +182,7 @@ impl From<SharedRouterSingleResponse> for web::HttpResponse {
 // stream content type is not included because we can deduplicate subscriptions across
 // different content types, the response format is decided when converting to response
 pub struct SharedRouterStreamResponse {
-    pub body: tokio::sync::broadcast::Sender<SubscriptionEvent>,
+    pub body: SubscriptionSender,
     pub headers: Arc<HeaderMap>,
     pub error_count: usize,
     // the leader gets the receiver that was subscribed before the pump was spawned, so
@@ -188,7 +190,7 @@ pub struct SharedRouterStreamResponse {
     // it must not outlive the leader: a receiver left behind in the deduplicated response
     // keeps the upstream alive after all consumers are gone, see `for_consumer`.
     // joiners get None and subscribe via body.subscribe() when consumed.
-    pub receiver: Mutex<Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>>,
+    pub receiver: Mutex<Option<SubscriptionReceiver>>,
 }
 
 impl Clone for SharedRouterStreamResponse {
@@ -203,7 +205,7 @@ impl Clone for SharedRouterStreamResponse {
 }
 
 impl SharedRouterStreamResponse {
-    fn take_receiver(&self) -> Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>> {
+    fn take_receiver(&self) -> Option<SubscriptionReceiver> {
         self.receiver
             .lock()
             .unwrap_or_else(PoisonError::into_inner)
@@ -212,7 +214,7 @@ impl SharedRouterStreamResponse {
 
     /// The receiver of this consumer. The leader already has a pre-subscribed receiver to
     /// avoid missing any potential events emitted. Joiners, on the other hand, subscribe.
-    pub fn subscribe(&self) -> tokio::sync::broadcast::Receiver<SubscriptionEvent> {
+    pub fn subscribe(&self) -> SubscriptionReceiver {
         self.take_receiver()
             .unwrap_or_else(|| self.body.subscribe())
     }
-- 
2.43.0


From 325d8b8a4419b5a344ee8b52da56ea56a9246956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 29/29] fix: bound the error body of an HTTP callback
 subscription request by its timeout

---
 .../src/executor/executors/http_callback.rs   | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/bin/router/src/executor/executors/http_callback.rs b/bin/router/src/executor/executors/http_callback.rs
index e6cfcd6..a399bb9 100644
--- a/bin/router/src/executor/executors/http_callback.rs
+++ b/bin/router/src/executor/executors/http_callback.rs
@@ -221,15 +221,25 @@ impl SubgraphExecutor for HttpCallbackSubgraphExecutor {
             "sending HTTP callback subscription request to subgraph",
         );
 
-        let req_fut = self.http_client.request(req);
-        let res = if let Some(timeout_duration) = timeout {
-            tokio::time::timeout(timeout_duration, req_fut)
-                .await?
-                .map_err(SubgraphExecutorError::RequestFailure)?
-        } else {
-            req_fut
+        // the body of an error response counts as part of the request, it might stall too
+        let req_fut = async {
+            let res = self
+                .http_client
+                .request(req)
                 .await
-                .map_err(SubgraphExecutorError::RequestFailure)?
+                .map_err(SubgraphExecutorError::RequestFailure)?;
+            let status = res.status();
+            let error_body = if status.is_success() {
+                None
+            } else {
+                res.into_body().collect().await.ok().map(|b| b.to_bytes())
+            };
+            Ok::<_, SubgraphExecutorError>((status, error_body))
+        };
+        let (status, error_body) = if let Some(timeout_duration) = timeout {
+            tokio::time::timeout(timeout_duration, req_fut).await??
+        } else {
+            req_fut.await?
         };
 
         debug!(
@@ -237,15 +247,12 @@ impl SubgraphExecutor for HttpCallbackSubgraphExecutor {
             subscription_id,
             subgraph = self.subgraph_name,
             endpoint = %self.endpoint,
-            status = %res.status(),
+            status = %status,
             "HTTP callback subscription request completed",
         );
 
-        if !res.status().is_success() {
-            let status = res.status();
-            let (_, body) = res.into_parts();
-            let body_bytes = body.collect().await.ok().map(|b| b.to_bytes());
-            let body_str = body_bytes
+        if !status.is_success() {
+            let body_str = error_body
                 .as_ref()
                 .and_then(|b| std::str::from_utf8(b).ok())
                 .unwrap_or("(no body)");
-- 
2.43.0

