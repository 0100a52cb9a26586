From 20fff28022d9b38ae70c490667b29481b2a49c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:17 +0000
Subject: [PATCH 01/10] fix: decode the whole request body, not only its first
 chunk

form() and json() parsed Buf::chunk() of the aggregated body, which is only
the first contiguous chunk: a body arriving in several chunks was silently
truncated (forms) or rejected (JSON).
---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From 5f998acf9b88bd379aae359767fa221ce16bc83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:17 +0000
Subject: [PATCH 02/10] fix: keep static file routes inside their directory

The request path was joined to the directory unchecked, so
`GET /files/../secret` read files outside of it, and use_static routes of a
nested router read from wherever the request path pointed to.
---
 src/router.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..4a4793b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,9 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
+use std::path::{Component, Path};
+
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -94,7 +96,10 @@ impl Router {
         let mut path = String::from(dir_path);
         path.push_str("/*");
 
-        self.get(&path, Self::static_dir_file_handler);
+        self.get(
+            &path,
+            Self::static_virtual_file_handler(dir_path, dir_path),
+        );
     }
 
     /// Apply route handler in current relative route
@@ -135,26 +140,29 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            let is_inside_dir = relative_path.iter().all(|key| Self::is_plain_name(key));
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if !is_inside_dir {
+                    return ctx
+                        .build("Not Found")
+                        .with_status(StatusCode::NOT_FOUND)
+                        .ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
         }
     }
 
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
+    /// A path segment which names an entry of its directory, so neither `..` nor a root or prefix
+    fn is_plain_name(segment: &str) -> bool {
+        Path::new(segment)
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)))
     }
 }
 
-- 
2.43.0


From ecb2fdf27ea1bb9345f820d7f119ac86f50c7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 03/10] fix: keep middleware registered at the root path

use_service_to("/", ..) dropped the middleware without a word.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..6ae4f30 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -162,6 +162,12 @@ impl RouteTrie {
 
         let mut curr_node = &mut self.head;
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         while let Some(k) = split_key.next() {
             match curr_node.process_insertion(k) {
                 Ok(next_node) => {
-- 
2.43.0


From 725869f41720600e64a2dcc5f80d6f6077cc48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 04/10] fix: do not discard registered routes when mounting a
 router at the root

use_router("/", ..) replaced everything registered before. Treat it like any
other mount path: mounting over existing routing data is a conflict.
---
 src/router/route_trie.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 6ae4f30..75c78b5 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -259,6 +259,10 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            if des.head.value.is_some() || !des.head.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
             des.head = src.head;
             return;
         }
-- 
2.43.0


From 77bb316dfc596de7e014916fd761ce695bdc5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 05/10] fix: logger must not panic when a handler sets no
 response

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..e5c081a 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // A handler may succeed without a response, which is sent as an empty 200
+                let status = match context_after.response() {
+                    Some(response) => response.status(),
+                    None => StatusCode::OK,
+                };
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From c969aa6f2ca5e3b901da7c08586ee512b5ce3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 06/10] fix: serve files which are not valid UTF-8

Any image or other binary file was answered with 404.
---
 src/router/response.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..7f11f0b 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -129,9 +129,12 @@ impl Response {
         }
     }
 
-    pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+    pub async fn file(mut self, file_path: &str) -> Self {
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => {
+                self.body = Body::from(content);
+                self
+            }
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 4f227e1cc68477008e340bcede8c656efb0ba70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 07/10] fix: run middleware outermost first

Lookup collected the middleware of a matched route as root, leaf, .., parents,
so the middleware of a scope ran after that of the routes inside of it.
---
 src/router/route_trie.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 75c78b5..2437d65 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -206,6 +206,7 @@ impl RouteTrie {
         let mut curr_node = &self.head;
         let mut params = HashMap::default();
         let mut middlewares = vec![];
+        let mut node_middlewares = vec![];
 
         match &curr_node.value {
             Some(val) => {
@@ -215,8 +216,14 @@ impl RouteTrie {
         }
 
         if !split_key.is_empty() {
-            match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
+            match curr_node.get_next_node(
+                &mut split_key,
+                &mut params,
+                &mut node_middlewares,
+                false,
+            ) {
                 Some(handler_node) => {
+                    middlewares.append(&mut node_middlewares);
                     curr_node = handler_node;
                 }
                 None => {
@@ -491,7 +498,9 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        // Run before the middlewares of the nodes below
+                                        middlewares
+                                            .splice(0..0, curr_val.middlewares.iter().cloned());
                                     }
                                     None => {}
                                 }
@@ -565,7 +574,8 @@ impl Node {
                     node.get_next_node(key, params, middlewares, break_key)
                 {
                     if let Some(curr_val) = &node.value {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        // Run before the middlewares of the nodes below
+                        middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                     }
 
                     return Some(final_val);
-- 
2.43.0


From 6d77ddbdd60bd63de838d0ce170c54cc435be6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 08/10] fix: form decoding must not panic on or skip over empty
 values

An empty value of an optional in a sequence was consumed twice, which lost the
next value or panicked, and a key with no values at all panicked.
---
 src/router/req_deserializer.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..b270275 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -188,7 +188,7 @@ macro_rules! from_string_forms_impl {
             fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
                 where V: de::Visitor<'de>
             {
-                match self.input[0].parse::<$t>() {
+                match self.first()?.parse::<$t>() {
                     Ok(result) => result.into_deserializer().$method(visitor),
                     Err(e) => Err(Error::Message(format!("{}", e))),
                 }
@@ -205,6 +205,10 @@ impl<'de> FormValueDeserializer<'de> {
     pub fn new(input: &'de [std::string::String]) -> Self {
         FormValueDeserializer { input }
     }
+
+    fn first(&self) -> Result<&'de String, Error> {
+        self.input.first().ok_or(Error::NoneError)
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
@@ -228,21 +232,21 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_string(self.input[0].clone())
+        visitor.visit_string(self.first()?.clone())
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_str(&self.input[0])
+        visitor.visit_str(self.first()?)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        match self.input[0].chars().next() {
+        match self.first()?.chars().next() {
             Some(val) => visitor.visit_char(val),
             _ => Err(Error::NoneError),
         }
@@ -253,7 +257,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         V: Visitor<'de>,
     {
         if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -264,10 +267,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
-
         visitor.visit_unit()
     }
 
@@ -346,16 +345,16 @@ impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
-            return Ok(None);
-        }
-
         // Only start moving slices after processing
         if !self.first {
-            self.de.input = &self.de.input[1..];
+            self.de.input = self.de.input.get(1..).unwrap_or_default();
         }
         self.first = false;
 
+        if self.de.input.is_empty() {
+            return Ok(None);
+        }
+
         seed.deserialize(&mut *self.de).map(Some)
     }
 }
-- 
2.43.0


From fc33dd4d0ea0136e1f75e65515a93997cfeda575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 09/10] fix: do not match routes across path separators

The trie did not tell a node continuing a path segment from one starting the
next segment: with a route /ab/c the path /abc was routed to it, /abc could not
be registered next to it, and middleware of /ab ran for /abc.
---
 src/router/route_trie.rs | 53 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 2437d65..dc68e1c 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -61,7 +61,7 @@ pub struct RouteTrie {
 impl RouteTrie {
     pub fn new() -> Self {
         RouteTrie {
-            head: Node::new("/".to_string(), None),
+            head: Node::new("/".to_string(), None, false),
         }
     }
 
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -169,7 +169,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -275,7 +275,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
@@ -325,14 +325,17 @@ struct Node {
     key: String,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
+    /// The key continues the path segment of the parent node instead of starting the next one
+    is_suffix: bool,
 }
 
 impl Node {
-    fn new(key: String, value: Option<RouteValue>) -> Self {
+    fn new(key: String, value: Option<RouteValue>, is_suffix: bool) -> Self {
         Node {
             key,
             value,
             child_nodes: Vec::default(),
+            is_suffix,
         }
     }
 
@@ -341,12 +344,16 @@ impl Node {
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        is_suffix: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_suffix);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = Self::new(key.to_string(), None, is_suffix);
 
                 match key {
                     k if k == "*" => {
@@ -372,7 +379,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -382,7 +389,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new(child_key, None, true);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -395,7 +402,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new(new_key, None, true);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -417,9 +424,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_suffix: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // The rest of a segment and the next segment are never the same
+            if node.is_suffix != is_suffix {
+                continue;
+            }
+
+            let is_param =
+                !is_suffix && (node.is_param() || key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -475,6 +488,11 @@ impl Node {
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
+            // The rest of a segment and the next segment are never the same
+            if node.is_suffix != is_break_parent {
+                continue;
+            }
+
             let mut break_key = false;
 
             if !is_break_parent {
@@ -573,9 +591,12 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
-                        // Run before the middlewares of the nodes below
-                        middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
+                    // A node within the path segment is not on the path
+                    if !break_key {
+                        if let Some(curr_val) = &node.value {
+                            // Run before the middlewares of the nodes below
+                            middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
+                        }
                     }
 
                     return Some(final_val);
-- 
2.43.0


From 4a42aa6bd6ecc717a625e23dda38f30f72d4d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 10/10] fix: a form value of several characters was accepted as
 a char

---
 src/router/req_deserializer.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index b270275..4df7885 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -242,16 +242,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         visitor.visit_str(self.first()?)
     }
 
-    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
-    where
-        V: Visitor<'de>,
-    {
-        match self.first()?.chars().next() {
-            Some(val) => visitor.visit_char(val),
-            _ => Err(Error::NoneError),
-        }
-    }
-
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
@@ -314,6 +304,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
 
     from_string_forms_impl! {
         bool => deserialize_bool
+        char => deserialize_char
         u8 => deserialize_u8
         u16 => deserialize_u16
         u32 => deserialize_u32
-- 
2.43.0

