From 297d343fe4f3257146b25c3fe679d8da50e995ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:33 +0000
Subject: [PATCH 01/20] fix: serialize `true` as "true" in URL paths, queries
 and headers

The three text serializers wrote "ture", which no deserializer accepts.
---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 7f8ae7f9d0543503e005205f0df8a602a0546ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 02/20] fix: skip exactly one value when ignoring an unknown
 query or header field

The query deserializer left the ignored value behind, so that it was taken
for the next key; the header deserializer demanded a header even when the
whole header part is ignored, rejecting header-less requests.
---
 src/deserializers/http_header.rs | 4 +++-
 src/deserializers/url_query.rs   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..7e0227c 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            let _v = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 89ce5b3d788f1c0394b5d804640884b8dd0b1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 03/20] fix: decode percent-escaped path segments as UTF-8

Each escaped byte was turned into a character of its own, which corrupted
every non-ASCII path argument, and signs were accepted as hex digits.
---
 src/deserializers/url_path.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..aa2700d 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,24 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(hex_digit(bytes.next()))?;
+            let h1 = track!(hex_digit(bytes.next()))?;
+            decoded.push(h0 * 16 + h1);
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
+
+fn hex_digit(b: Option<u8>) -> Result<u8> {
+    let digit = b.and_then(|b| char::from(b).to_digit(16));
+    let digit = track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+    Ok(digit as u8)
 }
 
 #[cfg(test)]
-- 
2.43.0


From cdfd8716d4a0e95b39308e0701b5a6069e3e95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 04/20] fix: answer 404 to a request target that has no path
 segments

A target such as "mailto:x" parses as a URL that cannot be a base, and
panicked the server.
---
 src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..d7307a0 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,7 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From ce7040938665071d9cd363b14606642134702a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 05/20] fix: answer 404, not 405, to a path that is only a
 prefix of entry points

---
 src/router.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index d7307a0..e449df3 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -36,6 +36,9 @@ impl Router {
                 return Err(HttpStatus::NotFound);
             }
         }
+        if trie.is_internal() {
+            return Err(HttpStatus::NotFound);
+        }
         trie.get_value(request.method())
             .ok_or(HttpStatus::MethodNotAllowed)
     }
@@ -124,6 +127,9 @@ impl TrieNode {
             .get(&Some(segment))
             .or_else(|| self.children.get(&None))
     }
+    pub fn is_internal(&self) -> bool {
+        self.leafs.is_empty()
+    }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
     }
-- 
2.43.0


From 52f87f9e6b7d76a8ad5147d7777a13fcdcb7cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:39 +0000
Subject: [PATCH 06/20] fix: match constant path segments after
 percent-decoding them

The client escapes constant segments like any other, but the server
compared the escaped form with the registered one: a procedure whose entry
point contains e.g. a space could never be called.
---
 src/deserializers/mod.rs      | 2 ++
 src/deserializers/url_path.rs | 5 +++--
 src/router.rs                 | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/deserializers/mod.rs b/src/deserializers/mod.rs
index e2d2265..f0f2ab7 100644
--- a/src/deserializers/mod.rs
+++ b/src/deserializers/mod.rs
@@ -6,6 +6,8 @@ pub use self::http_header::HttpHeaderDeserializer;
 pub use self::rpc_request::RpcRequestDeserializer;
 pub use self::rpc_response::RpcResponseDeserializer;
 pub use self::url_query::UrlQueryDeserializer;
+
+pub(crate) use self::url_path::percent_decode;
 pub use self::url_path::UrlPathDeserializer;
 
 mod http_header;
diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index aa2700d..83447fb 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -43,6 +43,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
         Ok(())
@@ -56,7 +57,7 @@ impl<'de> UrlPathDeserializer<'de> {
         let i = self.index;
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
-            let s = self.segments.next().unwrap();
+            let s = track!(percent_decode(self.segments.next().unwrap()))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -337,7 +338,7 @@ where
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
+pub fn percent_decode(s: &str) -> Result<String> {
     let mut bytes = s.bytes();
     let mut decoded = Vec::with_capacity(s.len());
     while let Some(b) = bytes.next() {
diff --git a/src/router.rs b/src/router.rs
index e449df3..bdb76f6 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use deserializers::percent_decode;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -30,7 +31,8 @@ impl Router {
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
         for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
-            if let Some(child) = trie.get_child(segment) {
+            let segment = percent_decode(segment).map_err(|_| HttpStatus::BadRequest)?;
+            if let Some(child) = trie.get_child(&segment) {
                 trie = child;
             } else {
                 return Err(HttpStatus::NotFound);
-- 
2.43.0


From 4df6fe61160bf7edcf0762214d7365570977fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 07/20] fix: make the procedure of the empty entry point
 reachable

Its URL path is "/", which consists of one (empty) segment.
---
 src/router.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index bdb76f6..c95a174 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -7,7 +7,7 @@ use url::Url;
 
 use deserializers::percent_decode;
 use procedure::EntryPoint;
-use types::{HttpMethod, HttpStatus};
+use types::{HttpMethod, HttpStatus, PathSegment};
 use {Error, ErrorKind, Result};
 
 type HandleHttpRequestResult = Box<
@@ -87,9 +87,17 @@ impl Trie {
         entry_point: &EntryPoint,
         handler: HandleHttpRequest,
     ) -> Result<()> {
+        use types::PathSegment::*;
+
+        // The path of the root URL (i.e., "/") consists of one empty segment.
+        static ROOT_SEGMENTS: &[PathSegment] = &[Val("")];
+        let segments = match entry_point.segments() {
+            [] => ROOT_SEGMENTS,
+            segments => segments,
+        };
+
         let mut node = &mut self.root;
-        for segment in entry_point.segments() {
-            use types::PathSegment::*;
+        for segment in segments {
             let key = match *segment {
                 Val(s) => Some(s),
                 Var => None,
-- 
2.43.0


From b2fd770c7d5c2e8ed21ad270b35635561ebeae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 08/20] fix: allow requests that have a query but no path

The query itself was serialized as the missing path, which always fails.
---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From c7a3911c4849d75f9fb757ab432f698f663c1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:55 +0000
Subject: [PATCH 09/20] fix: report an unserializable request as an error
 instead of panicking

A request without a `path` for an entry point that has variables, and a
struct variant request, panicked the calling fiber.
---
 src/serializers/rpc_request.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 9cca66c..cddef87 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -38,26 +38,26 @@ impl RpcRequestSerializer {
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
-        let mut request = self.take_request();
+        let mut request = track!(self.take_request())?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
 
-    fn take_request(&mut self) -> RequestBuilder<TcpStream> {
+    fn take_request(&mut self) -> Result<RequestBuilder<TcpStream>> {
         if let Some(request) = self.request.take() {
-            request
+            Ok(request)
         } else {
-            assert!(self.connection.is_some());
+            track_assert!(self.connection.is_some(), ErrorKind::Invalid);
             if !self.is_path_initialized {
-                let mut serializer = track_try_unwrap!(UrlPathSerializer::new(
+                let mut serializer = track!(UrlPathSerializer::new(
                     &self.entry_point,
                     &mut self.temp_url,
-                ));
-                track_try_unwrap!(().serialize(&mut serializer));
+                ))?;
+                track!(().serialize(&mut serializer))?;
             }
             let relative_url = &self.temp_url[url::Position::BeforePath..];
             let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            Ok(connection.build_request(self.method, relative_url))
         }
     }
 }
@@ -234,7 +234,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 Ok(())
             }
             "header" => {
-                let mut request = self.take_request();
+                let mut request = track!(self.take_request())?;
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
@@ -256,15 +256,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
     where
         T: ?Sized + Serialize,
     {
-        match key {
-            "header" => {
-                let request = self.request.as_mut().unwrap();
-                let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
-                track!(value.serialize(&mut serializer))?;
-                Ok(())
-            }
-            _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-        }
+        track!(ser::SerializeStruct::serialize_field(self, key, value))
     }
     fn end(self) -> Result<Self::Ok> {
         Ok(())
-- 
2.43.0


From 8aa7f4a16fec0246846c286cf078c97fd2a71832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:13 +0000
Subject: [PATCH 10/20] fix: never share a non-`Sync` handler among threads

The router was forced to be `Send` although its handlers are only `Send`,
so that fibers on different threads could clone one handler concurrently.
---
 src/router.rs | 5 ++---
 src/server.rs | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index c95a174..39c7329 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -16,13 +16,12 @@ type HandleHttpRequestResult = Box<
         + 'static,
 >;
 type HandleHttpRequest =
-    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
+    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + Sync + 'static>;
 
 #[derive(Clone)]
 pub struct Router {
     trie: Arc<Trie>,
 }
-unsafe impl Send for Router {}
 impl Router {
     pub fn route(
         &self,
@@ -65,7 +64,7 @@ impl RouterBuilder {
         handler: H,
     ) -> Result<()>
     where
-        H: Send + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
+        H: Send + Sync + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
     {
         track!(self.trie.insert(method, &entry_point, Box::new(handler)))?;
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index 682e7f3..c95641b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -11,6 +11,7 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
+use std::sync::Mutex;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -52,8 +53,9 @@ impl RpcServerBuilder {
         H: HandleRpc<P>,
     {
         use RpcRequest;
+        let handler = Mutex::new(handler); // NOTE: `H` may not be `Sync`
         let handle_http_request = move |url, http_request| {
-            let handler = handler.clone();
+            let handler = handler.lock().unwrap_or_else(|e| e.into_inner()).clone();
             let rpc_request: P::Request = {
                 let deserialize_result = {
                     let mut de = RpcRequestDeserializer::new(P::entry_point(), &url, &http_request);
-- 
2.43.0


From 4d904e1af6e55c1e7816800101b3b287f8d5e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 11/20] fix: reject header names and values that would inject
 other headers

---
 src/serializers/http_header.rs | 44 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..43533d1 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -1,7 +1,9 @@
 use std::borrow::Cow;
+use std::str;
 use miasht::header::HeadersMut;
 use serde::{ser, Serialize};
 use serde::ser::Impossible;
+use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result};
 
@@ -22,15 +24,24 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
-        if let Some(key) = self.key.take() {
-            let val = &key_or_val;
-            self.headers.add_raw_header(&key, val.as_bytes());
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
+        if self.key.is_some() {
+            track!(self.append_value(key_or_val.as_bytes()))
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
+            Ok(())
         }
     }
+    fn append_value(&mut self, value: &[u8]) -> Result<()> {
+        let key = track!(self.key.take().ok_or_else(|| ErrorKind::Invalid.error()))?;
+        let is_safe = |b: &u8| *b != b'\r' && *b != b'\n' && *b != 0;
+        track_assert!(key.as_bytes().iter().all(is_safe), ErrorKind::Invalid);
+        track_assert!(!key.contains(':'), ErrorKind::Invalid);
+        track_assert!(value.iter().all(is_safe), ErrorKind::Invalid);
+        self.headers.add_raw_header(&key, value);
+        Ok(())
+    }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type Ok = ();
@@ -46,8 +57,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +69,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +81,27 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
-        use std::str;
-        let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        if self.key.is_some() {
+            track!(self.append_value(v))
+        } else {
+            let key = track!(str::from_utf8(v).map_err(Error::from))?;
+            track!(self.append(Cow::Borrowed(key)))
+        }
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
-- 
2.43.0


From b62a1966c4bece6a9c6f92b91c1d75eed0b7be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:05 +0000
Subject: [PATCH 12/20] fix: reject path segments that a URL path cannot carry

---
 src/serializers/url_path.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..ed08ecf 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -30,26 +30,39 @@ impl<'a> UrlPathSerializer<'a> {
 
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
-        self.segments.push(value);
-        self.index += 1;
-        Ok(())
+        track_assert!(!track!(self.append_until_next_var())?, ErrorKind::Invalid);
+        track!(self.push_segment(value))
     }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(track!(self.append_until_next_var())?, ErrorKind::Invalid);
         Ok(())
     }
-    fn append_until_next_var(&mut self) -> bool {
+    fn append_until_next_var(&mut self) -> Result<bool> {
         while self.index < self.entry_point.segments().len() {
             if let Some(s) = self.entry_point.segments()[self.index].as_option() {
-                self.segments.push(s);
-                self.index += 1;
+                track!(self.push_segment(s))?;
             } else {
-                return false;
+                return Ok(false);
             }
         }
-        true
+        Ok(true)
+    }
+    fn push_segment(&mut self, segment: &str) -> Result<()> {
+        // NOTE: The segments which are dropped or modified by `PathSegmentsMut::push`
+        let is_dot = segment == "." || segment == "..";
+        let is_stripped = segment.contains(|c| c == '\t' || c == '\n' || c == '\r');
+        let is_lost =
+            segment.is_empty() && self.index == 0 && self.entry_point.segments().len() > 1;
+        track_assert!(
+            !(is_dot || is_stripped || is_lost),
+            ErrorKind::Invalid,
+            "Unrepresentable path segment: {:?}",
+            segment
+        );
+        self.segments.push(segment);
+        self.index += 1;
+        Ok(())
     }
     fn var_count(&self) -> usize {
         self.entry_point.var_count()
-- 
2.43.0


From 285810e3bd045cd9d70a7e745184c328ceabc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:21 +0000
Subject: [PATCH 13/20] fix: deserialize unit paths, which the serializer
 accepts

---
 src/deserializers/url_path.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 83447fb..5106fd3 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -219,11 +219,12 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 98248b7a5833d438ce9f44aacc289ea2c87c746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:21 +0000
Subject: [PATCH 14/20] fix: keep the status of a problem response in step with
 its problem

---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From 09931f17a0917f301bb5989af24d2b89888e6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:21 +0000
Subject: [PATCH 15/20] fix: discard the unread request body before responding

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index c95641b..e09e264 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -84,6 +84,13 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // Discards the remaining body (if any).
+                    http_request
+                        .read_all_bytes()
+                        .map(move |(http_request, _)| (http_request, rpc_request))
+                        .map_err(Error::from)
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From 1bdeda92a88687975127d90f25d83ee82deeeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:52 +0000
Subject: [PATCH 16/20] fix: deserialize an optional status, which the
 serializer accepts

---
 src/deserializers/rpc_response.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..c80537f 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,28 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_u16(self.0))
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_some(self))
+    }
+    ::serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum
+        identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
-- 
2.43.0


From 25d8f07d710a3476a10c0798396a3ce291d93131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:08 +0000
Subject: [PATCH 17/20] fix: check the path segments after the last argument
 that is read

---
 src/deserializers/url_path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 5106fd3..60450a5 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -46,6 +46,7 @@ impl<'de> UrlPathDeserializer<'de> {
             let actual = track!(percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
+        self.index = self.entry_point.segments().len();
         Ok(())
     }
     fn next_value(&mut self) -> Result<&'de str> {
@@ -247,7 +248,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
     {
         track_assert!(!self.in_seq, ErrorKind::Invalid);
         self.in_seq = true;
-        track!(visitor.visit_seq(self))
+        let v = track!(visitor.visit_seq(&mut *self))?;
+        track!(self.finish())?;
+        Ok(v)
     }
 
     fn deserialize_tuple<V>(self, _len: usize, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 67ac7ab061aee27a1d93631472c0b574a8d3a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:49 +0000
Subject: [PATCH 18/20] fix: treat a request target that starts with // as a
 path

---
 src/misc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..09d2352 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,6 +4,12 @@ use url::Url;
 use {Error, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
+    if url.starts_with("//") {
+        // NOTE: The target of a request is a path, not a network-path reference
+        let url = track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from))?;
+        return Ok(url);
+    }
+
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
     static START: Once = Once::new();
 
-- 
2.43.0


From a74fe8352c2ea7ab9235987899784f27291ad377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:45 +0000
Subject: [PATCH 19/20] fix: report parameter types that need self-describing
 data as invalid

Untagged enums and similar types ask for deserialize_any, which is reachable;
it is unsupported data, not an internal failure.
---
 src/deserializers/http_header.rs  | 2 +-
 src/deserializers/rpc_request.rs  | 2 +-
 src/deserializers/rpc_response.rs | 2 +-
 src/deserializers/url_path.rs     | 2 +-
 src/deserializers/url_query.rs    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 67f621b..4362476 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -66,7 +66,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Other, "unreachable");
+        track_panic!(ErrorKind::Invalid, "Self-describing data is unsupported");
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
diff --git a/src/deserializers/rpc_request.rs b/src/deserializers/rpc_request.rs
index 8f9a788..4a2dc3b 100644
--- a/src/deserializers/rpc_request.rs
+++ b/src/deserializers/rpc_request.rs
@@ -40,7 +40,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut RpcRequestDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Other, "unreachable");
+        track_panic!(ErrorKind::Invalid, "Self-describing data is unsupported");
     }
     fn deserialize_bool<V>(self, _visitor: V) -> Result<V::Value>
     where
diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index c80537f..2947a3a 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -33,7 +33,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Other, "unreachable");
+        track_panic!(ErrorKind::Invalid, "Self-describing data is unsupported");
     }
     fn deserialize_bool<V>(self, _visitor: V) -> Result<V::Value>
     where
diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 60450a5..b4097a1 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -74,7 +74,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Other, "unreachable");
+        track_panic!(ErrorKind::Invalid, "Self-describing data is unsupported");
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 7e0227c..cdaf407 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -54,7 +54,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Other, "unreachable");
+        track_panic!(ErrorKind::Invalid, "Self-describing data is unsupported");
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From dd36673ca3845c501f32235e442948aa4a7ff686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:55 +0000
Subject: [PATCH 20/20] fix: a request target that starts with /\ is a path,
 not a host

Url takes a backslash for a slash, so GET /\a/x was still read as the path /x
of the host a and reached the handler of /x.
---
 src/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index 09d2352..d4760c2 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,8 +4,9 @@ use url::Url;
 use {Error, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
-    if url.starts_with("//") {
+    if url.starts_with("//") || url.starts_with("/\\") {
         // NOTE: The target of a request is a path, not a network-path reference
+        // (`Url` takes a backslash for a slash)
         let url = track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from))?;
         return Ok(url);
     }
-- 
2.43.0

