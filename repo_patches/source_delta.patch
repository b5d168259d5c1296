From 44f8b426f5b5d07aa56662eff8e78715bec5aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 01/34] fix: serialize `true` as "true" in paths, queries and
 headers

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 7828515fba054f31b26e6a7d49d852b34877e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 02/34] fix: decode percent-encoded path segments as UTF-8

---
 src/deserializers/url_path.rs | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..cde20ef 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,26 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    fn hex_digit(b: Option<u8>) -> Result<u8> {
+        let digit = b.and_then(|b| (b as char).to_digit(16));
+        let digit =
+            track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+        Ok(digit as u8)
+    }
+
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::new();
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(hex_digit(bytes.next()))?;
+            let h1 = track!(hex_digit(bytes.next()))?;
+            decoded.push(h0 * 16 + h1);
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    // The escaped octets represent a UTF-8 text.
+    track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 57b1bd1cca195d83bb2e0cabf19ad11ef538f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 03/34] fix: discard the values of unknown query parameters

---
 src/deserializers/url_query.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..4ad8673 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,8 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        // Discards the value of an unknown parameter (if any).
+        self.phase = Phase::Key;
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 41ed5ca498e9783bd8a20ad70051102168f447df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 04/34] fix: allow requests which have a query but no path
 arguments

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From b18d056da9079613ca249d554929590aacaf1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 05/34] fix: refuse path arguments which cannot be carried by a
 URL path

---
 src/serializers/url_path.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..3be6e33 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -30,26 +30,38 @@ impl<'a> UrlPathSerializer<'a> {
 
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
-        self.segments.push(value);
-        self.index += 1;
-        Ok(())
+        track_assert!(!track!(self.append_until_next_var())?, ErrorKind::Invalid);
+        track!(self.push_segment(value))
     }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(track!(self.append_until_next_var())?, ErrorKind::Invalid);
+        Ok(())
+    }
+    fn push_segment(&mut self, segment: &str) -> Result<()> {
+        // The followings cannot be represented as a URL path segment
+        // (`PathSegmentsMut::push` would silently drop or modify them).
+        track_assert!(segment != "." && segment != "..", ErrorKind::Invalid);
+        track_assert!(
+            !segment.contains(|c| c == '\t' || c == '\n' || c == '\r'),
+            ErrorKind::Invalid
+        );
+        if self.index == 0 && self.entry_point.segments().len() > 1 {
+            track_assert!(!segment.is_empty(), ErrorKind::Invalid);
+        }
+        self.segments.push(segment);
+        self.index += 1;
         Ok(())
     }
-    fn append_until_next_var(&mut self) -> bool {
+    fn append_until_next_var(&mut self) -> Result<bool> {
         while self.index < self.entry_point.segments().len() {
             if let Some(s) = self.entry_point.segments()[self.index].as_option() {
-                self.segments.push(s);
-                self.index += 1;
+                track!(self.push_segment(s))?;
             } else {
-                return false;
+                return Ok(false);
             }
         }
-        true
+        Ok(true)
     }
     fn var_count(&self) -> usize {
         self.entry_point.var_count()
-- 
2.43.0


From 2d16d092ce42d39d5b4212aa38aa128454089040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:46 +0000
Subject: [PATCH 06/34] fix: accept unit path arguments

---
 src/deserializers/url_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index cde20ef..38a43a1 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -218,11 +218,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 1fe51ebc74733e3b5631d63bbc20e65312b5cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:45 +0000
Subject: [PATCH 07/34] fix: reply 404 instead of panicking if the request
 target has no path segments

---
 src/router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..3a073fe 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,8 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        // NOTE: There are URLs which have no path segments (e.g., "mailto:foo")
+        for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From cbc6373b237489a2b43b5bad791f2178ca39e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:45 +0000
Subject: [PATCH 08/34] fix: never handle a part of the request path as a URL
 authority

---
 src/misc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..a949669 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -14,6 +14,10 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             DUMMY_BASE_URL = Some(&*Box::into_raw(url))
         }
     });
+    if url.starts_with('/') {
+        // NOTE: Prevents targets like "//foo/bar" from being handled as "//${AUTHORITY}/${PATH}"
+        return track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from));
+    }
     let url = track!(
         Url::options()
             .base_url(unsafe { DUMMY_BASE_URL })
-- 
2.43.0


From d88facb122d4a5f1fd83aedf67de9e0a8b0bcf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:46 +0000
Subject: [PATCH 09/34] fix: consider every matching entry point when routing a
 request

---
 src/router.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 3a073fe..d3e1903 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -28,17 +28,9 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
         // NOTE: There are URLs which have no path segments (e.g., "mailto:foo")
-        for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
-            } else {
-                return Err(HttpStatus::NotFound);
-            }
-        }
-        trie.get_value(request.method())
-            .ok_or(HttpStatus::MethodNotAllowed)
+        let segments: Vec<_> = url.path_segments().ok_or(HttpStatus::NotFound)?.collect();
+        self.trie.root().find(&segments, request.method())
     }
 }
 
@@ -119,13 +111,28 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
-    pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
-        let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
-    }
-    pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
-        self.leafs.get(&method)
+    pub fn find(
+        &self,
+        segments: &[&str],
+        method: HttpMethod,
+    ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
+        if let Some((segment, rest)) = segments.split_first() {
+            let segment: &'static str = unsafe { &*(*segment as *const _) as _ };
+            let mut error = HttpStatus::NotFound;
+            for key in [Some(segment), None].iter() {
+                if let Some(child) = self.children.get(key) {
+                    match child.find(rest, method) {
+                        Ok(handler) => return Ok(handler),
+                        Err(HttpStatus::MethodNotAllowed) => error = HttpStatus::MethodNotAllowed,
+                        Err(_) => {}
+                    }
+                }
+            }
+            Err(error)
+        } else if self.leafs.is_empty() {
+            Err(HttpStatus::NotFound)
+        } else {
+            self.leafs.get(&method).ok_or(HttpStatus::MethodNotAllowed)
+        }
     }
 }
-- 
2.43.0


From d4e031067c62f1f7299776fdd31a4a6d1886daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/34] fix: make the empty entry point reachable

---
 src/router.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index d3e1903..9ccfe67 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -85,6 +85,11 @@ impl Trie {
             let prev = node;
             node = prev.children.entry(key).or_insert_with(|| TrieNode::new());
         }
+        if entry_point.segments().is_empty() {
+            // The root path "/" consists of an empty segment.
+            let prev = node;
+            node = prev.children.entry(Some("")).or_insert_with(|| TrieNode::new());
+        }
         track_assert!(
             !node.leafs.contains_key(&method),
             ErrorKind::Invalid,
-- 
2.43.0


From 5fa415528ddba1eff5a9d59403e81f3ac05940f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 11/34] fix: compare constant path segments after
 percent-decoding

---
 src/deserializers/url_path.rs | 31 +++++--------------------------
 src/misc.rs                   | 27 ++++++++++++++++++++++++++-
 src/router.rs                 | 17 ++++++++++++-----
 3 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 38a43a1..70c4f4d 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -5,6 +5,7 @@ use std::str::Split;
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use misc;
 use types::EntryPoint;
 use {Error, ErrorKind, Result};
 
@@ -43,6 +44,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(misc::percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
         Ok(())
@@ -56,7 +58,7 @@ impl<'de> UrlPathDeserializer<'de> {
         let i = self.index;
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
-            let s = self.segments.next().unwrap();
+            let s = track!(misc::percent_decode(self.segments.next().unwrap()))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -186,7 +188,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         V: Visitor<'de>,
     {
         let v = track!(self.next_value())?;
-        let s = track!(percent_decode(v))?;
+        let s = track!(misc::percent_decode(v))?;
         track!(visitor.visit_string(s))
     }
 
@@ -334,34 +336,11 @@ fn parse_escaped_str<T: std::str::FromStr>(s: &str) -> Result<T>
 where
     Error: From<T::Err>,
 {
-    let s = percent_decode(s)?;
+    let s = misc::percent_decode(s)?;
     let v = track!(s.parse().map_err(Error::from), "s={:?}", s)?;
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
-    fn hex_digit(b: Option<u8>) -> Result<u8> {
-        let digit = b.and_then(|b| (b as char).to_digit(16));
-        let digit =
-            track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-        Ok(digit as u8)
-    }
-
-    let mut bytes = s.bytes();
-    let mut decoded = Vec::new();
-    while let Some(b) = bytes.next() {
-        if b == b'%' {
-            let h0 = track!(hex_digit(bytes.next()))?;
-            let h1 = track!(hex_digit(bytes.next()))?;
-            decoded.push(h0 * 16 + h1);
-        } else {
-            decoded.push(b);
-        }
-    }
-    // The escaped octets represent a UTF-8 text.
-    track!(String::from_utf8(decoded).map_err(Error::from))
-}
-
 #[cfg(test)]
 mod test {
     use serde::Deserialize;
diff --git a/src/misc.rs b/src/misc.rs
index a949669..c0e3c1c 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,7 +1,8 @@
 use std::sync::{Once};
+use trackable::error::ErrorKindExt;
 use url::Url;
 
-use {Error, Result};
+use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
@@ -26,3 +27,27 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     )?;
     Ok(url)
 }
+
+/// Decodes a percent-encoded URL path segment.
+pub fn percent_decode(s: &str) -> Result<String> {
+    fn hex_digit(b: Option<u8>) -> Result<u8> {
+        let digit = b.and_then(|b| (b as char).to_digit(16));
+        let digit =
+            track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+        Ok(digit as u8)
+    }
+
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::new();
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(hex_digit(bytes.next()))?;
+            let h1 = track!(hex_digit(bytes.next()))?;
+            decoded.push(h0 * 16 + h1);
+        } else {
+            decoded.push(b);
+        }
+    }
+    // The escaped octets represent a UTF-8 text.
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
diff --git a/src/router.rs b/src/router.rs
index 9ccfe67..1810d55 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use misc;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -29,7 +30,10 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         // NOTE: There are URLs which have no path segments (e.g., "mailto:foo")
-        let segments: Vec<_> = url.path_segments().ok_or(HttpStatus::NotFound)?.collect();
+        let segments: Vec<_> = url.path_segments()
+            .ok_or(HttpStatus::NotFound)?
+            .map(|s| misc::percent_decode(s).ok())
+            .collect();
         self.trie.root().find(&segments, request.method())
     }
 }
@@ -118,14 +122,17 @@ impl TrieNode {
     }
     pub fn find(
         &self,
-        segments: &[&str],
+        segments: &[Option<String>],
         method: HttpMethod,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         if let Some((segment, rest)) = segments.split_first() {
-            let segment: &'static str = unsafe { &*(*segment as *const _) as _ };
+            let segment: Option<&'static str> =
+                segment.as_ref().map(|s| unsafe { &*(s.as_str() as *const _) as _ });
+            let constant = segment.and_then(|s| self.children.get(&Some(s)));
+            let variable = self.children.get(&None);
             let mut error = HttpStatus::NotFound;
-            for key in [Some(segment), None].iter() {
-                if let Some(child) = self.children.get(key) {
+            for child in [constant, variable].iter() {
+                if let Some(child) = *child {
                     match child.find(rest, method) {
                         Ok(handler) => return Ok(handler),
                         Err(HttpStatus::MethodNotAllowed) => error = HttpStatus::MethodNotAllowed,
-- 
2.43.0


From 2ca5f9094e7d621182ffd46abbfd3f11118711bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:08 +0000
Subject: [PATCH 12/34] fix: refuse header fields which could inject or alter
 parts of the message

Names and values were written to the wire as they are, so that line breaks
started new headers (or a new message), blanks around values got lost, and a
Content-Length or Transfer-Encoding field changed the framing of the body.
---
 src/serializers/http_header.rs | 52 +++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..cab07e8 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,14 +22,28 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(
+                is_valid_name(&key),
+                ErrorKind::Invalid,
+                "Invalid HTTP header name: {:?}",
+                key
+            );
+            track_assert!(
+                is_valid_value(val),
+                ErrorKind::Invalid,
+                "Invalid HTTP header value: name={:?}, value={:?}",
+                key,
+                val
+            );
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
@@ -46,8 +60,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +72,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +84,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -232,3 +240,21 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+/// Checks whether `name` is a token (RFC 7230) which doesn't affect the framing of the message.
+fn is_valid_name(name: &str) -> bool {
+    let is_token_char =
+        |b: u8| (b as char).is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b);
+    !name.is_empty()
+        && name.bytes().all(is_token_char)
+        && !name.eq_ignore_ascii_case("content-length")
+        && !name.eq_ignore_ascii_case("transfer-encoding")
+}
+
+/// Checks whether `value` can be carried by a header line as is.
+fn is_valid_value(value: &str) -> bool {
+    let is_blank = |c| c == ' ' || c == '\t';
+    value.bytes().all(|b| b == b'\t' || (b >= 0x20 && b != 0x7F))
+        && !value.starts_with(&is_blank)
+        && !value.ends_with(&is_blank)
+}
-- 
2.43.0


From 49b3129fce0c1fdfe4d290b7bb68513ca45fdff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:08 +0000
Subject: [PATCH 13/34] fix: ignore the headers of messages which have no
 header at all

A message whose type doesn't have the `header` field was rejected if (and only
if) it contained no headers.
---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 18b4ad37f4f1aa56ebbd406c1da7ee489c9f1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:31 +0000
Subject: [PATCH 14/34] fix: match the names of header fields
 case-insensitively

The received names are lowercased, so that fields declared with uppercase
letters (e.g., "X-Foo") were never recognized.
---
 src/deserializers/http_header.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 67f621b..15cccb6 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -30,6 +30,7 @@ impl Phase {
 pub struct HttpHeaderDeserializer<'de> {
     in_map: bool,
     phase: Phase,
+    fields: &'static [&'static str],
     headers: Peekable<HeadersIter<'de>>,
 }
 impl<'de> HttpHeaderDeserializer<'de> {
@@ -38,6 +39,7 @@ impl<'de> HttpHeaderDeserializer<'de> {
         HttpHeaderDeserializer {
             in_map: false,
             phase: Phase::Key,
+            fields: &[],
             headers: headers.iter().peekable(),
         }
     }
@@ -47,7 +49,14 @@ impl<'de> HttpHeaderDeserializer<'de> {
     fn next_bytes(&mut self) -> Result<Cow<'de, [u8]>> {
         if let Some(&(k, v)) = self.headers.peek() {
             let v = match self.phase {
-                Phase::Key => Cow::Owned(k.to_lowercase().into_bytes()),
+                Phase::Key => {
+                    // NOTE: Header names are case-insensitive
+                    let field = self.fields.iter().find(|f| f.eq_ignore_ascii_case(k));
+                    match field {
+                        Some(field) => Cow::Borrowed(field.as_bytes()),
+                        None => Cow::Owned(k.to_lowercase().into_bytes()),
+                    }
+                }
                 Phase::Value => {
                     let _ = self.headers.next();
                     Cow::Borrowed(v)
@@ -284,12 +293,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     fn deserialize_struct<V>(
         self,
         _name: &'static str,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
+        self.fields = fields;
         track!(self.deserialize_map(visitor))
     }
 
-- 
2.43.0


From 0175468ae5f5b52006be818baf8223825addc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:46 +0000
Subject: [PATCH 15/34] fix: never handle a part of a body as the whole body,
 nor the rest as the next request

If a stream ended before the announced length of a body had arrived, the part
received so far was accepted as the complete body. Parts of a request body which
the procedure doesn't read were handled as the next request.
---
 src/client.rs |  5 +++--
 src/lib.rs    |  2 +-
 src/misc.rs   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 src/server.rs | 23 ++++++++++++++---------
 4 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..3c302a2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -10,6 +10,7 @@ use serde::{Deserialize, Serialize};
 
 use Error;
 use deserializers::RpcResponseDeserializer;
+use misc::Message;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
 use types::HttpMethod;
@@ -106,9 +107,9 @@ where
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
                         Box::new(futures::finished((response, Vec::new())))
                     } else {
-                        let future = futures::done(response.into_body_reader())
+                        let future = futures::done(Message(response).into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .map(|(res, body)| (res.into_inner().0, body));
                         Box::new(future)
                     };
                     Phase::D(future)
diff --git a/src/lib.rs b/src/lib.rs
index 801d041..61b83a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,7 +21,7 @@ pub use miasht::builtin::futures::FutureExt;
 
 #[allow(missing_docs)]
 pub type BodyReader =
-    miasht::builtin::io::BodyReader<miasht::server::Request<fibers::net::TcpStream>>;
+    miasht::builtin::io::BodyReader<misc::Message<miasht::server::Request<fibers::net::TcpStream>>>;
 
 #[allow(missing_docs)]
 pub fn content_length(body: &BodyReader) -> Option<u64> {
diff --git a/src/misc.rs b/src/misc.rs
index c0e3c1c..e67d3a7 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,8 +1,13 @@
+use miasht::{Metadata, Version};
+use miasht::header::Headers;
+use miasht::status::RawStatus;
+use std::io::{self, Read};
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
 
 use {Error, ErrorKind, Result};
+use types::HttpMethod;
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
@@ -51,3 +56,45 @@ pub fn percent_decode(s: &str) -> Result<String> {
     // The escaped octets represent a UTF-8 text.
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
+
+/// A message of which the body is being read.
+///
+/// If the length of the body is known, reading this fails when the stream ends prematurely.
+#[derive(Debug)]
+pub struct Message<T>(pub T);
+impl<T: Read + Metadata> Read for Message<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let size = self.0.read(buf)?;
+        if size == 0 && !buf.is_empty() && has_body_length(&self.0) {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "Unexpected EOF while reading HTTP body",
+            ));
+        }
+        Ok(size)
+    }
+}
+impl<T: Metadata> Metadata for Message<T> {
+    fn version(&self) -> Version {
+        self.0.version()
+    }
+    fn headers(&self) -> &Headers {
+        self.0.headers()
+    }
+    fn status(&self) -> Option<&RawStatus> {
+        self.0.status()
+    }
+    fn method(&self) -> Option<HttpMethod> {
+        self.0.method()
+    }
+    fn path(&self) -> Option<&str> {
+        self.0.path()
+    }
+}
+
+/// Returns `true` if the end of the body is indicated by the message itself.
+pub fn has_body_length<T: Metadata>(message: &T) -> bool {
+    let headers = message.headers();
+    message.is_request() || headers.get("Content-Length").is_some()
+        || headers.get("Transfer-Encoding").is_some()
+}
diff --git a/src/server.rs b/src/server.rs
index 682e7f3..d73bc78 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -14,7 +14,7 @@ use std::net::SocketAddr;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
-use misc;
+use misc::{self, Message};
 use procedure::{HandleRpc, Procedure};
 use rfc7807::Problem;
 use router::{Router, RouterBuilder};
@@ -61,11 +61,11 @@ impl RpcServerBuilder {
                 };
                 match deserialize_result {
                     Err(e) => {
-                        let future = futures::done(http_request.into_body_reader())
+                        let future = futures::done(Message(http_request).into_body_reader())
                             .map_err(Error::from)
                             .and_then(|request| request.read_all_bytes().map_err(Error::from))
                             .and_then(move |(request, _)| {
-                                let http_request = request.into_inner();
+                                let http_request = request.into_inner().0;
                                 let rpc_response =
                                     Problem::trackable(HttpStatus::BadRequest, e).into_response();
                                 track!(RpcResponseSerializer::serialize(
@@ -79,11 +79,16 @@ impl RpcServerBuilder {
                     Ok(r) => r,
                 }
             };
-            let future = futures::done(http_request.into_body_reader())
+            let future = futures::done(Message(http_request).into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // Discards the rest of the body (if any).
+                    let future = http_request.read_all_bytes().map_err(Error::from);
+                    future.map(|(http_request, _)| (http_request, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
-                    let http_request = http_request.into_inner();
+                    let http_request = http_request.into_inner().0;
                     handler
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
@@ -210,13 +215,13 @@ impl HandleHttpRequest {
                     let future: BoxFuture<_, _> =
                         match track!(misc::parse_relative_url(request.path())) {
                             Err(e) => {
-                                let future = futures::done(request.into_body_reader())
+                                let future = futures::done(Message(request).into_body_reader())
                                     .map_err(Error::from)
                                     .and_then(|request| {
                                         request.read_all_bytes().map_err(Error::from)
                                     })
                                     .and_then(|(request, _)| {
-                                        let request = request.into_inner();
+                                        let request = request.into_inner().0;
                                         let rpc_response =
                                             Problem::trackable(HttpStatus::BadRequest, e)
                                                 .into_response();
@@ -229,13 +234,13 @@ impl HandleHttpRequest {
                             }
                             Ok(url) => match self.router.route(&url, &request) {
                                 Err(status) => {
-                                    let future = futures::done(request.into_body_reader())
+                                    let future = futures::done(Message(request).into_body_reader())
                                         .map_err(Error::from)
                                         .and_then(|request| {
                                             request.read_all_bytes().map_err(Error::from)
                                         })
                                         .and_then(move |(request, _)| {
-                                            let request = request.into_inner();
+                                            let request = request.into_inner().0;
                                             let rpc_response =
                                                 Problem::about_blank(status).into_response();
                                             track!(RpcResponseSerializer::serialize(
-- 
2.43.0


From 8d5eafb50cd26dd92c8f306248e54663461688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:18 +0000
Subject: [PATCH 16/34] fix: read chunked bodies to their end

The chunk reader of miasht takes the size line of the second chunk for the end
of the body: the rest of the body got lost, and was handled as the next request.
---
 src/client.rs |   7 ++-
 src/misc.rs   | 138 ++++++++++++++++++++++++++++++++++++++++++++++----
 src/server.rs |  19 ++++---
 3 files changed, 139 insertions(+), 25 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 3c302a2..8cb62ca 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -3,14 +3,13 @@ use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::IoExt;
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
 
 use Error;
 use deserializers::RpcResponseDeserializer;
-use misc::Message;
+use misc;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
 use types::HttpMethod;
@@ -107,9 +106,9 @@ where
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
                         Box::new(futures::finished((response, Vec::new())))
                     } else {
-                        let future = futures::done(Message(response).into_body_reader())
+                        let future = futures::done(misc::body_reader(response))
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner().0, body));
+                            .map(|(res, body)| (res.into_inner().into_inner(), body));
                         Box::new(future)
                     };
                     Phase::D(future)
diff --git a/src/misc.rs b/src/misc.rs
index e67d3a7..f7b09de 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,7 +1,12 @@
-use miasht::{Metadata, Version};
+use miasht::{self, Metadata, Version};
+use miasht::builtin::headers::TransferEncoding;
+use miasht::builtin::io::BodyReader;
 use miasht::header::Headers;
 use miasht::status::RawStatus;
+use std::cmp;
 use std::io::{self, Read};
+use std::mem;
+use std::str;
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
@@ -57,15 +62,59 @@ pub fn percent_decode(s: &str) -> Result<String> {
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
+/// Returns the reader of the body of the message.
+pub fn body_reader<T: Read + Metadata>(message: T) -> miasht::Result<BodyReader<Message<T>>> {
+    let mut message = Message {
+        inner: message,
+        chunk: None,
+        line: Vec::new(),
+    };
+    if message.headers().get("Content-Length").is_none()
+        && message.headers().get("Transfer-Encoding").is_some()
+    {
+        let _ = track!(
+            message
+                .headers()
+                .parse::<TransferEncoding>()
+                .map_err(miasht::Error::from)
+        )?;
+        message.chunk = Some(Chunk::Size);
+        Ok(BodyReader::Raw(message))
+    } else {
+        BodyReader::new(message)
+    }
+}
+
 /// A message of which the body is being read.
 ///
 /// If the length of the body is known, reading this fails when the stream ends prematurely.
 #[derive(Debug)]
-pub struct Message<T>(pub T);
-impl<T: Read + Metadata> Read for Message<T> {
-    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let size = self.0.read(buf)?;
-        if size == 0 && !buf.is_empty() && has_body_length(&self.0) {
+pub struct Message<T> {
+    inner: T,
+    chunk: Option<Chunk>,
+    line: Vec<u8>,
+}
+
+/// What has to be read next in a chunked body.
+#[derive(Debug)]
+enum Chunk {
+    Size,
+    Data(u64),
+    DataEnd,
+    Trailer,
+    End,
+}
+
+impl<T> Message<T> {
+    /// Returns the message itself.
+    pub fn into_inner(self) -> T {
+        self.inner
+    }
+}
+impl<T: Read + Metadata> Message<T> {
+    fn read_stream(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let size = self.inner.read(buf)?;
+        if size == 0 && !buf.is_empty() && has_body_length(&self.inner) {
             return Err(io::Error::new(
                 io::ErrorKind::UnexpectedEof,
                 "Unexpected EOF while reading HTTP body",
@@ -73,22 +122,89 @@ impl<T: Read + Metadata> Read for Message<T> {
         }
         Ok(size)
     }
+    fn read_line(&mut self) -> io::Result<Vec<u8>> {
+        while !self.line.ends_with(b"\r\n") {
+            let mut byte = [0];
+            self.read_stream(&mut byte)?;
+            self.line.push(byte[0]);
+            if self.line.len() > MAX_LINE_LEN {
+                return Err(invalid_chunk());
+            }
+        }
+        let len = self.line.len() - 2;
+        self.line.truncate(len);
+        Ok(mem::replace(&mut self.line, Vec::new()))
+    }
 }
+impl<T: Read + Metadata> Read for Message<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        loop {
+            let next = match self.chunk {
+                None => return self.read_stream(buf),
+                Some(Chunk::End) => return Ok(0),
+                Some(Chunk::Size) => match parse_chunk_size(&self.read_line()?)? {
+                    0 => Chunk::Trailer,
+                    size => Chunk::Data(size),
+                },
+                Some(Chunk::Data(0)) => Chunk::DataEnd,
+                Some(Chunk::Data(rest)) => {
+                    let size = cmp::min(rest, buf.len() as u64) as usize;
+                    let size = self.read_stream(&mut buf[..size])?;
+                    self.chunk = Some(Chunk::Data(rest - size as u64));
+                    return Ok(size);
+                }
+                Some(Chunk::DataEnd) => {
+                    if !self.read_line()?.is_empty() {
+                        return Err(invalid_chunk());
+                    }
+                    Chunk::Size
+                }
+                Some(Chunk::Trailer) => {
+                    if self.read_line()?.is_empty() {
+                        Chunk::End
+                    } else {
+                        Chunk::Trailer
+                    }
+                }
+            };
+            self.chunk = Some(next);
+        }
+    }
+}
+
+const MAX_LINE_LEN: usize = 1024;
+
+fn parse_chunk_size(line: &[u8]) -> io::Result<u64> {
+    let size = line.split(|&b| b == b';').next().expect("Never fails");
+    let size = str::from_utf8(size).map_err(|_| invalid_chunk())?.trim();
+    if !size.chars().all(|c| c.is_digit(16)) {
+        return Err(invalid_chunk());
+    }
+    u64::from_str_radix(size, 16).map_err(|_| invalid_chunk())
+}
+
+fn invalid_chunk() -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, "Invalid chunk in HTTP body")
+}
+
 impl<T: Metadata> Metadata for Message<T> {
     fn version(&self) -> Version {
-        self.0.version()
+        self.inner.version()
     }
     fn headers(&self) -> &Headers {
-        self.0.headers()
+        self.inner.headers()
     }
     fn status(&self) -> Option<&RawStatus> {
-        self.0.status()
+        self.inner.status()
     }
     fn method(&self) -> Option<HttpMethod> {
-        self.0.method()
+        self.inner.method()
     }
     fn path(&self) -> Option<&str> {
-        self.0.path()
+        self.inner.path()
     }
 }
 
diff --git a/src/server.rs b/src/server.rs
index d73bc78..9c914e1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -5,7 +5,6 @@ use futures::{self, Async, Future, Poll, Stream};
 use handy_async::future::Phase;
 use miasht;
 use miasht::builtin::futures::FutureExt;
-use miasht::builtin::io::IoExt;
 use miasht::server::{Connection, Request, Response};
 use serde::Deserialize;
 use slog::{Discard, Logger};
@@ -14,7 +13,7 @@ use std::net::SocketAddr;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
-use misc::{self, Message};
+use misc;
 use procedure::{HandleRpc, Procedure};
 use rfc7807::Problem;
 use router::{Router, RouterBuilder};
@@ -61,11 +60,11 @@ impl RpcServerBuilder {
                 };
                 match deserialize_result {
                     Err(e) => {
-                        let future = futures::done(Message(http_request).into_body_reader())
+                        let future = futures::done(misc::body_reader(http_request))
                             .map_err(Error::from)
                             .and_then(|request| request.read_all_bytes().map_err(Error::from))
                             .and_then(move |(request, _)| {
-                                let http_request = request.into_inner().0;
+                                let http_request = request.into_inner().into_inner();
                                 let rpc_response =
                                     Problem::trackable(HttpStatus::BadRequest, e).into_response();
                                 track!(RpcResponseSerializer::serialize(
@@ -79,7 +78,7 @@ impl RpcServerBuilder {
                     Ok(r) => r,
                 }
             };
-            let future = futures::done(Message(http_request).into_body_reader())
+            let future = futures::done(misc::body_reader(http_request))
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
                 .and_then(|(http_request, rpc_request)| {
@@ -88,7 +87,7 @@ impl RpcServerBuilder {
                     future.map(|(http_request, _)| (http_request, rpc_request))
                 })
                 .and_then(move |(http_request, rpc_request)| {
-                    let http_request = http_request.into_inner().0;
+                    let http_request = http_request.into_inner().into_inner();
                     handler
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
@@ -215,13 +214,13 @@ impl HandleHttpRequest {
                     let future: BoxFuture<_, _> =
                         match track!(misc::parse_relative_url(request.path())) {
                             Err(e) => {
-                                let future = futures::done(Message(request).into_body_reader())
+                                let future = futures::done(misc::body_reader(request))
                                     .map_err(Error::from)
                                     .and_then(|request| {
                                         request.read_all_bytes().map_err(Error::from)
                                     })
                                     .and_then(|(request, _)| {
-                                        let request = request.into_inner().0;
+                                        let request = request.into_inner().into_inner();
                                         let rpc_response =
                                             Problem::trackable(HttpStatus::BadRequest, e)
                                                 .into_response();
@@ -234,13 +233,13 @@ impl HandleHttpRequest {
                             }
                             Ok(url) => match self.router.route(&url, &request) {
                                 Err(status) => {
-                                    let future = futures::done(Message(request).into_body_reader())
+                                    let future = futures::done(misc::body_reader(request))
                                         .map_err(Error::from)
                                         .and_then(|request| {
                                             request.read_all_bytes().map_err(Error::from)
                                         })
                                         .and_then(move |(request, _)| {
-                                            let request = request.into_inner().0;
+                                            let request = request.into_inner().into_inner();
                                             let rpc_response =
                                                 Problem::about_blank(status).into_response();
                                             track!(RpcResponseSerializer::serialize(
-- 
2.43.0


From d9a7174f0d5980fc7fcc73a59ee4e6251673f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 17/34] fix: refuse messages of which the body length is
 ambiguous

If a message has two lengths (e.g., Content-Length and Transfer-Encoding), one of
them was silently picked, so that the rest of the message could be handled as
another message.
---
 src/misc.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index f7b09de..c83ef90 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -12,7 +12,7 @@ use trackable::error::ErrorKindExt;
 use url::Url;
 
 use {Error, ErrorKind, Result};
-use types::HttpMethod;
+use types::{HttpMethod, HttpStatus};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
@@ -69,9 +69,16 @@ pub fn body_reader<T: Read + Metadata>(message: T) -> miasht::Result<BodyReader<
         chunk: None,
         line: Vec::new(),
     };
-    if message.headers().get("Content-Length").is_none()
-        && message.headers().get("Transfer-Encoding").is_some()
-    {
+    let (is_chunked, is_ambiguous) = {
+        let count = |name: &str| {
+            let headers = message.headers().iter();
+            headers.filter(|h| h.0.eq_ignore_ascii_case(name)).count()
+        };
+        let encodings = count("Transfer-Encoding");
+        (encodings > 0, encodings + count("Content-Length") > 1)
+    };
+    track_assert!(!is_ambiguous, HttpStatus::BadRequest, "Ambiguous body length");
+    if is_chunked {
         let _ = track!(
             message
                 .headers()
-- 
2.43.0


From 31cf48edc0cfb21be65914b98666f5e247dd61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:31 +0000
Subject: [PATCH 18/34] fix: keep the status of a problem response in step with
 its problem

`ProblemResponse::set_problem` replaced the body but not the status line.
---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From 43aeedaa39f9177d0ac3d0b377fffe63cb2cff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:39 +0000
Subject: [PATCH 19/34] fix: keep accepting clients after a connection failed
 while being accepted

---
 src/server.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 9c914e1..78d9f26 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -134,7 +134,15 @@ impl Future for RpcServer {
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
-            let next = match track!(self.phase.poll().map_err(Error::from))? {
+            let polled = match self.phase.poll() {
+                Err(Phase::B((ref e, incoming))) if is_connection_error(e) => {
+                    warn!(self.logger, "Failed to accept a client: {}", e);
+                    self.phase = Phase::B(incoming.into_future());
+                    continue;
+                }
+                polled => polled,
+            };
+            let next = match track!(polled.map_err(Error::from))? {
                 Async::NotReady => return Ok(Async::NotReady),
                 Async::Ready(Phase::A(listener)) => {
                     info!(
@@ -170,6 +178,17 @@ impl Future for RpcServer {
     }
 }
 
+/// Returns `true` if the error only concerns the connection which was being accepted.
+fn is_connection_error(e: &io::Error) -> bool {
+    match e.kind() {
+        io::ErrorKind::ConnectionAborted
+        | io::ErrorKind::ConnectionRefused
+        | io::ErrorKind::ConnectionReset
+        | io::ErrorKind::Interrupted => true,
+        _ => false,
+    }
+}
+
 struct HandleHttpRequest {
     logger: Logger,
     router: Router,
-- 
2.43.0


From 021f4a00de225c0f7a49a1ce41d6a538c96d92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 20/34] fix: preserve the pipelined requests while writing a
 response

The buffer of a connection is shared by both directions, so that the part of
the subsequent requests which had already been received was lost when the
server wrote a response.
---
 src/router.rs |  9 +++----
 src/server.rs | 73 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 1810d55..f566963 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -1,20 +1,17 @@
 use fibers::net::TcpStream;
 use futures::Future;
-use miasht::server::{Request, Response};
+use miasht::server::Request;
 use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
 use misc;
 use procedure::EntryPoint;
+use server::HttpResponse;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
 
-type HandleHttpRequestResult = Box<
-    dyn Future<Item = (Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>), Error = Error>
-        + Send
-        + 'static,
->;
+type HandleHttpRequestResult = Box<dyn Future<Item = HttpResponse, Error = Error> + Send + 'static>;
 type HandleHttpRequest =
     Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
 
diff --git a/src/server.rs b/src/server.rs
index 78d9f26..a10cc6b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -8,13 +8,13 @@ use miasht::builtin::futures::FutureExt;
 use miasht::server::{Connection, Request, Response};
 use serde::Deserialize;
 use slog::{Discard, Logger};
-use std::io;
+use std::io::{self, Read, Write};
 use std::net::SocketAddr;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
 use misc;
-use procedure::{HandleRpc, Procedure};
+use procedure::{HandleRpc, Procedure, RpcResponse};
 use rfc7807::Problem;
 use router::{Router, RouterBuilder};
 use serializers::RpcResponseSerializer;
@@ -67,10 +67,7 @@ impl RpcServerBuilder {
                                 let http_request = request.into_inner().into_inner();
                                 let rpc_response =
                                     Problem::trackable(HttpStatus::BadRequest, e).into_response();
-                                track!(RpcResponseSerializer::serialize(
-                                    rpc_response,
-                                    http_request.finish(),
-                                ))
+                                track!(HttpResponse::new(rpc_response, http_request))
                             });
                         let future: BoxFuture<_, _> = Box::new(future);
                         return future;
@@ -92,10 +89,7 @@ impl RpcServerBuilder {
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
                         .and_then(move |rpc_response| {
-                            track!(RpcResponseSerializer::serialize(
-                                rpc_response,
-                                http_request.finish(),
-                            ))
+                            track!(HttpResponse::new(rpc_response, http_request))
                         })
                 });
             let future: BoxFuture<_, _> = Box::new(future);
@@ -103,7 +97,7 @@ impl RpcServerBuilder {
         };
         track!(self
             .router
-            .register_handler(P::method(), P::entry_point(), handle_http_request,))?;
+            .register_handler(P::method(), P::entry_point(), handle_http_request))?;
         Ok(())
     }
 
@@ -189,13 +183,44 @@ fn is_connection_error(e: &io::Error) -> bool {
     }
 }
 
+/// A response to be written.
+pub struct HttpResponse {
+    response: Response<TcpStream>,
+    body: Box<dyn AsRef<[u8]> + Send + 'static>,
+
+    // The beginning of the subsequent requests, if the client has already sent it.
+    //
+    // The buffer of the connection cannot preserve it while writing the response.
+    received: Vec<u8>,
+}
+impl HttpResponse {
+    fn new<T>(rpc_response: T, request: Request<TcpStream>) -> Result<Self>
+    where
+        T: RpcResponse,
+    {
+        let mut connection = request.finish();
+        let mut received = Vec::new();
+        track!(connection
+            .as_mut()
+            .buffer
+            .read_to_end(&mut received)
+            .map_err(Error::from))?;
+        let (response, body) = track!(RpcResponseSerializer::serialize(rpc_response, connection))?;
+        Ok(HttpResponse {
+            response,
+            body,
+            received,
+        })
+    }
+}
+
 struct HandleHttpRequest {
     logger: Logger,
     router: Router,
     phase: Phase<
         BoxFuture<Connection<TcpStream>, miasht::Error>,
         BoxFuture<Option<Request<TcpStream>>, miasht::Error>,
-        BoxFuture<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>), Error>,
+        BoxFuture<HttpResponse, Error>,
     >,
     method: HttpMethod,
 }
@@ -243,10 +268,7 @@ impl HandleHttpRequest {
                                         let rpc_response =
                                             Problem::trackable(HttpStatus::BadRequest, e)
                                                 .into_response();
-                                        track!(RpcResponseSerializer::serialize(
-                                            rpc_response,
-                                            request.finish(),
-                                        ))
+                                        track!(HttpResponse::new(rpc_response, request))
                                     });
                                 Box::new(future)
                             }
@@ -261,10 +283,7 @@ impl HandleHttpRequest {
                                             let request = request.into_inner().into_inner();
                                             let rpc_response =
                                                 Problem::about_blank(status).into_response();
-                                            track!(RpcResponseSerializer::serialize(
-                                                rpc_response,
-                                                request.finish(),
-                                            ))
+                                            track!(HttpResponse::new(rpc_response, request))
                                         });
                                     Box::new(future)
                                 }
@@ -273,7 +292,12 @@ impl HandleHttpRequest {
                         };
                     Phase::C(future)
                 }
-                Async::Ready(Phase::C((response, body))) => {
+                Async::Ready(Phase::C(response)) => {
+                    let HttpResponse {
+                        response,
+                        body,
+                        received,
+                    } = response;
                     let future: BoxFuture<_, _> = if self.method == HttpMethod::Head {
                         Box::new(response)
                     } else {
@@ -285,6 +309,13 @@ impl HandleHttpRequest {
                         }
                         Box::new(response.write_all_bytes(Temp(body)).and_then(|res| res))
                     };
+                    let future: BoxFuture<_, _> =
+                        Box::new(future.and_then(move |mut connection| {
+                            let buffer = &mut connection.as_mut().buffer;
+                            buffer.enter_read_phase();
+                            track!(buffer.write_all(&received).map_err(miasht::Error::from))?;
+                            Ok(connection)
+                        }));
                     Phase::A(future)
                 }
                 _ => unreachable!(),
-- 
2.43.0


From d5f308b3c6216f090b3baa78bdcaff191867c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:21 +0000
Subject: [PATCH 21/34] fix: refuse body lengths which have a sign

"Content-Length: +5" is not a valid field, and other HTTP implementations
(e.g., proxies) would not agree on the length of the body.
---
 src/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index c83ef90..1d9882e 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -78,6 +78,14 @@ pub fn body_reader<T: Read + Metadata>(message: T) -> miasht::Result<BodyReader<
         (encodings > 0, encodings + count("Content-Length") > 1)
     };
     track_assert!(!is_ambiguous, HttpStatus::BadRequest, "Ambiguous body length");
+    if let Some(value) = message.headers().get("Content-Length") {
+        // NOTE: `str::parse` accepts also the values which have a sign.
+        track_assert!(
+            value.iter().all(|b| b.is_ascii_digit()),
+            HttpStatus::BadRequest,
+            "Invalid body length"
+        );
+    }
     if is_chunked {
         let _ = track!(
             message
-- 
2.43.0


From 9745ae91d69e1849335a38770439436f73ade5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:22 +0000
Subject: [PATCH 22/34] fix: do not wait for the body of the responses which
 cannot have it

A response of which the status is 1xx, 204 or 304 ends with its head, so the
call stayed pending until the server closed the connection.
---
 src/misc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 1d9882e..d8414fb 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -95,6 +95,8 @@ pub fn body_reader<T: Read + Metadata>(message: T) -> miasht::Result<BodyReader<
         )?;
         message.chunk = Some(Chunk::Size);
         Ok(BodyReader::Raw(message))
+    } else if !has_body_length(&message) && never_has_body(&message) {
+        Ok(BodyReader::FixedLength(message.take(0)))
     } else {
         BodyReader::new(message)
     }
@@ -229,3 +231,11 @@ pub fn has_body_length<T: Metadata>(message: &T) -> bool {
     message.is_request() || headers.get("Content-Length").is_some()
         || headers.get("Transfer-Encoding").is_some()
 }
+
+/// Returns `true` if the response has no body unless it indicates the length of the body.
+fn never_has_body<T: Metadata>(response: &T) -> bool {
+    match response.status().map(|s| s.code()) {
+        Some(code) => code / 100 == 1 || code == 204 || code == 304,
+        None => false,
+    }
+}
-- 
2.43.0


From 14bc43afdf726459e1bf37d1b874348146096b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:22 +0000
Subject: [PATCH 23/34] fix: do not reuse the connections which are not clean
 after a call

The pool handed out connections of which the response had been terminated by
the end of the connection, or on which data that is not a part of the response
had been received, so that the next call failed or received a wrong response.
---
 src/client.rs | 14 ++++++++++++--
 src/misc.rs   | 10 ++++++++++
 src/pool.rs   |  4 +++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 8cb62ca..80b2716 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -77,7 +77,7 @@ impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Connection<TcpStream>);
+    type Item = (P::Response, Option<Connection<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -121,7 +121,17 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    return Ok(Async::Ready((rpc_response, response.finish())));
+
+                    // If there is data which is not a part of the response,
+                    // the connection is not reusable.
+                    let is_reusable = misc::is_reusable(&response, P::method());
+                    let mut connection = response.finish();
+                    let connection = if is_reusable && connection.as_mut().buffer.is_empty() {
+                        Some(connection)
+                    } else {
+                        None
+                    };
+                    return Ok(Async::Ready((rpc_response, connection)));
                 }
                 _ => unreachable!(),
             };
diff --git a/src/misc.rs b/src/misc.rs
index d8414fb..f73db19 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -232,6 +232,16 @@ pub fn has_body_length<T: Metadata>(message: &T) -> bool {
         || headers.get("Transfer-Encoding").is_some()
 }
 
+/// Returns `true` if the connection can be used for other requests after reading the response.
+///
+/// If the end of the response is not indicated, it is the end of the connection too,
+/// and if the response is an interim one, the final response will follow it.
+pub fn is_reusable<T: Metadata>(response: &T, method: HttpMethod) -> bool {
+    let is_interim = response.status().map_or(false, |s| s.code() / 100 == 1);
+    has_body_length(response)
+        || (!is_interim && (method == HttpMethod::Head || never_has_body(response)))
+}
+
 /// Returns `true` if the response has no body unless it indicates the length of the body.
 fn never_has_body<T: Metadata>(response: &T) -> bool {
     match response.status().map(|s| s.code()) {
diff --git a/src/pool.rs b/src/pool.rs
index 099882d..8c5eeab 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -321,7 +321,9 @@ where
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         if let Async::Ready((response, connection)) = track!(self.inner.poll())? {
-            self.handle.release_connection(self.addr, connection);
+            if let Some(connection) = connection {
+                self.handle.release_connection(self.addr, connection);
+            }
             Ok(Async::Ready(response))
         } else {
             Ok(Async::NotReady)
-- 
2.43.0


From 8e5d304e1f7999c79cae860dbffdaf7be075dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:55 +0000
Subject: [PATCH 24/34] fix: accept responses of which the status field is
 optional

Such responses (e.g., `ProblemResponse`) could be returned by the server,
but the client always failed to decode them.
---
 src/deserializers/rpc_response.rs | 25 +++++++++++++++++++++++--
 src/lib.rs                        |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..c14d789 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,28 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+/// `Deserializer` implementation for status codes (both of required ones and optional ones).
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u16(self.0)
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
+        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
diff --git a/src/lib.rs b/src/lib.rs
index 61b83a2..b606d70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,7 @@ extern crate fibers;
 extern crate futures;
 extern crate handy_async;
 extern crate miasht;
+#[macro_use]
 extern crate serde;
 #[macro_use]
 extern crate serde_derive;
-- 
2.43.0


From cd161d8b63adc1a975c2823d290c0c521e557e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:20 +0000
Subject: [PATCH 25/34] fix: keep the idle connections of different IPv6 scopes
 apart

The connections of addresses which differ only in the scope ID or the flow
information were interleaved in the map of idle connections, so that idle
connections were not found.
---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 8c5eeab..d2cd6ad 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -36,8 +36,7 @@ impl PartialOrd for ConnectionId {
 }
 impl Ord for ConnectionId {
     fn cmp(&self, other: &Self) -> Ordering {
-        let other = (other.addr.ip(), other.addr.port(), other.seq_no);
-        (self.addr.ip(), self.addr.port(), self.seq_no).cmp(&other)
+        (self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))
     }
 }
 
-- 
2.43.0


From 31f9098db7c0015a427e28debbfad36250c2a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:18 +0000
Subject: [PATCH 26/34] fix: do not panic if the suspended duration is very
 long

The pool computed the end of the suspension as `SystemTime`, and panicked if it
was not representable. The elapsed time is compared instead, on the monotonic
clock, so that the duration is also right when the wall clock is adjusted.
---
 src/pool.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index d2cd6ad..b3bc07f 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
-use std::time::{Duration, SystemTime};
+use std::time::{Duration, Instant};
 use fibers::net::TcpStream;
 use fibers::sync::mpsc;
 use fibers::sync::oneshot;
@@ -101,7 +101,7 @@ pub struct RpcClientPool {
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
     seq_no: u64,
-    blacklist: HashMap<SocketAddr, SystemTime>,
+    blacklist: HashMap<SocketAddr, Instant>,
     suspended_duration: Duration,
     connect_timeout: Duration,
 }
@@ -147,14 +147,14 @@ impl RpcClientPool {
     fn handle_command(&mut self, command: Command) {
         match command {
             Command::AcquireConnection { addr, reply } => {
-                if let Some(suspended_until) = self.blacklist.remove(&addr) {
-                    if suspended_until > SystemTime::now() {
-                        self.blacklist.insert(addr, suspended_until);
+                if let Some(suspended_at) = self.blacklist.remove(&addr) {
+                    if suspended_at.elapsed() < self.suspended_duration {
+                        self.blacklist.insert(addr, suspended_at);
                         let future = PooledConnection::failed(
                             ErrorKind::Other
                                 .cause(format!(
-                                    "The address {:?} is unavailable until {:?}",
-                                    addr, suspended_until
+                                    "The address {:?} is unavailable for {:?} from {:?}",
+                                    addr, self.suspended_duration, suspended_at
                                 ))
                                 .into(),
                         );
@@ -169,8 +169,7 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
-                self.blacklist.insert(addr, suspended_until);
+                self.blacklist.insert(addr, Instant::now());
             }
         }
     }
-- 
2.43.0


From 600053d2d85d17afb03b4dd271068b8cc5c8c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:55 +0000
Subject: [PATCH 27/34] fix: do not panic if the connect timeout is very long

The timer, and so the executor, panicked if the time of the expiration was not
representable.
---
 src/pool.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index b3bc07f..ffcf151 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -1,5 +1,5 @@
 //! Connection pool.
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
@@ -141,7 +141,8 @@ impl RpcClientPool {
 
     /// Sets the timeout of a TCP connecting phase.
     pub fn set_connect_timeout(&mut self, timeout: Duration) {
-        self.connect_timeout = timeout;
+        // NOTE: Timers panic if the time of the expiration is not representable.
+        self.connect_timeout = cmp::min(timeout, Duration::from_secs(u64::from(u32::MAX)));
     }
 
     fn handle_command(&mut self, command: Command) {
-- 
2.43.0


From 59ca1cd50710bb6e32fbf1dcf2e7f63ccf41576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 28/34] fix: refuse MessagePack fields which are followed by
 other bytes

---
 src/msgpack.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/msgpack.rs b/src/msgpack.rs
index e38045d..73527b8 100644
--- a/src/msgpack.rs
+++ b/src/msgpack.rs
@@ -28,6 +28,14 @@ where
     T: for<'a> Deserialize<'a>,
     D: Deserializer<'de>,
 {
-    let msgpack = Vec::deserialize(deserializer)?;
-    track!(serdeconv::from_msgpack_slice(&msgpack)).map_err(|e| de::Error::custom(e))
+    let msgpack: Vec<u8> = Vec::deserialize(deserializer)?;
+    let mut rest = &msgpack[..];
+    let value = track!(serdeconv::from_msgpack_reader(&mut rest)).map_err(|e| de::Error::custom(e))?;
+    if !rest.is_empty() {
+        return Err(de::Error::custom(format!(
+            "{} bytes remain after the MessagePack value",
+            rest.len()
+        )));
+    }
+    Ok(value)
 }
-- 
2.43.0


From cb49bdcda762a1d57bb7ad67b88323f2dfb0a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 29/34] fix: refuse messages of which the head does not fit in
 the connection buffer

The rest of such a head was dropped silently, and the body followed the
truncated head.
---
 src/misc.rs                     | 18 ++++++++++++++++++
 src/serializers/http_header.rs  |  8 ++++++++
 src/serializers/rpc_request.rs  | 21 +++++++++++++++------
 src/serializers/rpc_response.rs | 21 +++++++++++++++------
 4 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index f73db19..7f0b43b 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -38,6 +38,24 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     Ok(url)
 }
 
+/// Checks whether the head of a message fits in the buffer of a connection.
+///
+/// `size` is the size of the start line and the headers except `Content-Length`.
+pub fn check_head_size(size: usize, body_len: usize) -> Result<()> {
+    let size = size + format!("Content-Length: {}\r\n\r\n", body_len).len();
+    track_assert!(
+        size <= MAX_HEAD_SIZE,
+        ErrorKind::Invalid,
+        "Too large HTTP header: size={}, max={}",
+        size,
+        MAX_HEAD_SIZE
+    );
+    Ok(())
+}
+
+// The size of the buffers of the connections (both of clients and of servers).
+const MAX_HEAD_SIZE: usize = 8096;
+
 /// Decodes a percent-encoded URL path segment.
 pub fn percent_decode(s: &str) -> Result<String> {
     fn hex_digit(b: Option<u8>) -> Result<u8> {
diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index cab07e8..c4fd2d8 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -11,6 +11,7 @@ pub struct HttpHeaderSerializer<'a> {
     is_first: bool,
     key: Option<Cow<'static, str>>,
     headers: HeadersMut<'a>,
+    size: usize,
 }
 impl<'a> HttpHeaderSerializer<'a> {
     /// Makes a new `HttpHeaderSerializer` instance.
@@ -19,9 +20,15 @@ impl<'a> HttpHeaderSerializer<'a> {
             is_first: true,
             key: None,
             headers,
+            size: 0,
         }
     }
 
+    /// Returns the number of the bytes which have been written.
+    pub fn size(&self) -> usize {
+        self.size
+    }
+
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
@@ -39,6 +46,7 @@ impl<'a> HttpHeaderSerializer<'a> {
                 val
             );
             self.headers.add_raw_header(&key, val.as_bytes());
+            self.size += key.len() + ": ".len() + val.len() + "\r\n".len();
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 9cca66c..7cb5c59 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -6,6 +6,7 @@ use serde::ser::Impossible;
 use url::{self, Url};
 
 use {Error, ErrorKind, Result};
+use misc;
 use types::{EntryPoint, HttpMethod};
 use serializers::{HttpHeaderSerializer, UrlPathSerializer, UrlQuerySerializer};
 
@@ -18,6 +19,7 @@ pub struct RpcRequestSerializer {
     entry_point: EntryPoint,
     connection: Option<Connection<TcpStream>>,
     request: Option<RequestBuilder<TcpStream>>,
+    head_size: usize,
 }
 impl RpcRequestSerializer {
     /// Makes a new `RpcRequestSerializer` instance.
@@ -33,12 +35,14 @@ impl RpcRequestSerializer {
             entry_point,
             connection: Some(connection),
             request: None,
+            head_size: 0,
         }
     }
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
         let mut request = self.take_request();
+        track!(misc::check_head_size(self.head_size, body.len()))?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
@@ -55,11 +59,16 @@ impl RpcRequestSerializer {
                 ));
                 track_try_unwrap!(().serialize(&mut serializer));
             }
-            let relative_url = &self.temp_url[url::Position::BeforePath..];
-            let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            self.build_request()
         }
     }
+
+    fn build_request(&mut self) -> RequestBuilder<TcpStream> {
+        let relative_url = &self.temp_url[url::Position::BeforePath..];
+        let connection = self.connection.take().unwrap();
+        self.head_size = format!("{} {} HTTP/1.1\r\n", self.method, relative_url).len();
+        connection.build_request(self.method, relative_url)
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcRequestSerializer {
     type Ok = ();
@@ -228,9 +237,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     let mut serializer = UrlQuerySerializer::new(self.temp_url.query_pairs_mut());
                     track!(value.serialize(&mut serializer))?;
                 }
-                let relative_url = &self.temp_url[url::Position::BeforePath..];
-                let connection = self.connection.take().unwrap();
-                self.request = Some(connection.build_request(self.method, relative_url));
+                self.request = Some(self.build_request());
                 Ok(())
             }
             "header" => {
@@ -238,6 +245,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
+                    self.head_size += serializer.size();
                 }
                 self.request = Some(request);
                 Ok(())
@@ -261,6 +269,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
                 let request = self.request.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_size += serializer.size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
diff --git a/src/serializers/rpc_response.rs b/src/serializers/rpc_response.rs
index 2413f48..50594c6 100644
--- a/src/serializers/rpc_response.rs
+++ b/src/serializers/rpc_response.rs
@@ -8,6 +8,7 @@ use serdeconv;
 use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result, RpcResponse};
+use misc;
 use serializers::HttpHeaderSerializer;
 use types::HttpStatus;
 
@@ -16,6 +17,7 @@ use types::HttpStatus;
 pub struct RpcResponseSerializer {
     connection: Option<Connection<TcpStream>>,
     response: Option<ResponseBuilder<TcpStream>>,
+    head_size: usize,
 }
 impl RpcResponseSerializer {
     /// Serializes the RPC response.
@@ -37,6 +39,7 @@ impl RpcResponseSerializer {
         RpcResponseSerializer {
             connection: Some(connection),
             response: None,
+            head_size: 0,
         }
     }
 
@@ -47,9 +50,16 @@ impl RpcResponseSerializer {
     ) -> Result<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>)> {
         track_assert!(self.response.is_some(), ErrorKind::Invalid);
         let mut response = self.response.expect("Never fail");
+        track!(misc::check_head_size(self.head_size, (*body).as_ref().len()))?;
         response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));
         Ok((response.finish(), body))
     }
+
+    fn build_response(&mut self, status: HttpStatus) {
+        let response = self.connection.take().unwrap().build_response(status);
+        self.head_size = format!("HTTP/1.1 {}\r\n", status).len();
+        self.response = Some(response);
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     type Ok = ();
@@ -128,8 +138,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::Ok> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.build_response(status);
         Ok(())
     }
     fn serialize_newtype_struct<T>(self, _name: &'static str, value: &T) -> Result<Self::Ok>
@@ -187,8 +196,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::SerializeStructVariant> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.build_response(status);
         Ok(self)
     }
 }
@@ -211,8 +219,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                     "Unknown HTTP status: {}",
                     status
                 )?;
-                let response = self.connection.take().unwrap().build_response(status);
-                self.response = Some(response);
+                self.build_response(status);
                 Ok(())
             }
             "header" => {
@@ -220,6 +227,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_size += serializer.size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
@@ -241,6 +249,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_size += serializer.size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-- 
2.43.0


From 5f35901a38e21176ba53acd5338f2a222ee13d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:35 +0000
Subject: [PATCH 30/34] fix: do not treat binary header values as UTF-8 texts

---
 src/serializers/http_header.rs | 59 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index c4fd2d8..9109035 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::str;
 use miasht::header::HeadersMut;
 use serde::{ser, Serialize};
 use serde::ser::Impossible;
@@ -30,29 +31,33 @@ impl<'a> HttpHeaderSerializer<'a> {
     }
 
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
-        if let Some(key) = self.key.take() {
-            let val = &key_or_val;
-            track_assert!(
-                is_valid_name(&key),
-                ErrorKind::Invalid,
-                "Invalid HTTP header name: {:?}",
-                key
-            );
-            track_assert!(
-                is_valid_value(val),
-                ErrorKind::Invalid,
-                "Invalid HTTP header value: name={:?}, value={:?}",
-                key,
-                val
-            );
-            self.headers.add_raw_header(&key, val.as_bytes());
-            self.size += key.len() + ": ".len() + val.len() + "\r\n".len();
+        if self.key.is_some() {
+            track!(self.append_value(key_or_val.as_bytes()))?;
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
         Ok(())
     }
+    fn append_value(&mut self, val: &[u8]) -> Result<()> {
+        let key = self.key.take().expect("Never fails");
+        track_assert!(
+            is_valid_name(&key),
+            ErrorKind::Invalid,
+            "Invalid HTTP header name: {:?}",
+            key
+        );
+        track_assert!(
+            is_valid_value(val),
+            ErrorKind::Invalid,
+            "Invalid HTTP header value: name={:?}, value={:?}",
+            key,
+            String::from_utf8_lossy(val)
+        );
+        self.headers.add_raw_header(&key, val);
+        self.size += key.len() + ": ".len() + val.len() + "\r\n".len();
+        Ok(())
+    }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type Ok = ();
@@ -107,9 +112,13 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
-        use std::str;
-        let v = unsafe { str::from_utf8_unchecked(v) };
-        track!(self.append(Cow::Borrowed(v)))
+        if self.key.is_some() {
+            // NOTE: A value is not necessarily a UTF-8 text.
+            track!(self.append_value(v))
+        } else {
+            let v = track!(str::from_utf8(v).map_err(Error::from))?;
+            track!(self.append(Cow::Borrowed(v)))
+        }
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -260,9 +269,9 @@ fn is_valid_name(name: &str) -> bool {
 }
 
 /// Checks whether `value` can be carried by a header line as is.
-fn is_valid_value(value: &str) -> bool {
-    let is_blank = |c| c == ' ' || c == '\t';
-    value.bytes().all(|b| b == b'\t' || (b >= 0x20 && b != 0x7F))
-        && !value.starts_with(&is_blank)
-        && !value.ends_with(&is_blank)
+fn is_valid_value(value: &[u8]) -> bool {
+    let is_blank = |b: &u8| *b == b' ' || *b == b'\t';
+    value.iter().all(|&b| b == b'\t' || (b >= 0x20 && b != 0x7F))
+        && !value.first().map_or(false, &is_blank)
+        && !value.last().map_or(false, &is_blank)
 }
-- 
2.43.0


From dadcd1eed166d687e05a1a8722ef4a3454ff99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:40 +0000
Subject: [PATCH 31/34] fix: discard pooled connections which were closed or
 received unexpected data

---
 src/pool.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/pool.rs b/src/pool.rs
index ffcf151..092fd3a 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -2,6 +2,7 @@
 use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
+use std::io::{self, Read};
 use std::net::SocketAddr;
 use std::time::{Duration, Instant};
 use fibers::net::TcpStream;
@@ -163,6 +164,7 @@ impl RpcClientPool {
                         return;
                     }
                 }
+                self.discard_dead_connections(addr);
                 let future = self.acquire_connection(addr);
                 let _ = reply.send(future);
             }
@@ -202,6 +204,23 @@ impl RpcClientPool {
             }
         }
     }
+    // Discards the connections which have been closed or
+    // have received data which does not belong to any response.
+    fn discard_dead_connections(&mut self, addr: SocketAddr) {
+        let lower = ConnectionId::new(addr, 0);
+        loop {
+            let dead = self.connections
+                .range_mut((Bound::Included(lower), Bound::Unbounded))
+                .nth(0)
+                .and_then(|(id, c)| if id.addr == addr && !is_idle(c) { Some(*id) } else { None });
+            let id = match dead {
+                Some(id) => id,
+                None => return,
+            };
+            self.lru_queue.remove(&id.seq_no);
+            self.connections.remove(&id);
+        }
+    }
     fn release_connection(&mut self, addr: SocketAddr, connection: TcpConnection) {
         let id = ConnectionId::new(addr, self.seq_no);
         self.seq_no += 1;
@@ -222,6 +241,14 @@ impl RpcClientPool {
         }
     }
 }
+
+fn is_idle(connection: &mut TcpConnection) -> bool {
+    match connection.as_mut().stream.read(&mut [0]) {
+        Err(e) => e.kind() == io::ErrorKind::WouldBlock,
+        Ok(_) => false,
+    }
+}
+
 impl Future for RpcClientPool {
     type Item = ();
     type Error = ();
-- 
2.43.0


From 4324655821342f3f770764185c4226b854bce42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:29 +0000
Subject: [PATCH 32/34] fix: accept responses of which the status field is a
 newtype

---
 src/deserializers/rpc_response.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index c14d789..7fd7105 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -280,9 +280,15 @@ impl<'de> de::Deserializer<'de> for StatusDeserializer {
     {
         visitor.visit_some(self)
     }
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
+        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
     }
 }
 
-- 
2.43.0


From 4562f121c053113581ff8af6e7861926e40659a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:47 +0000
Subject: [PATCH 33/34] fix: fail calls whose path cannot be represented
 instead of panicking

---
 src/serializers/rpc_request.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 7cb5c59..f08ee3d 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -41,25 +41,25 @@ impl RpcRequestSerializer {
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
-        let mut request = self.take_request();
+        let mut request = track!(self.take_request())?;
         track!(misc::check_head_size(self.head_size, body.len()))?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
 
-    fn take_request(&mut self) -> RequestBuilder<TcpStream> {
+    fn take_request(&mut self) -> Result<RequestBuilder<TcpStream>> {
         if let Some(request) = self.request.take() {
-            request
+            Ok(request)
         } else {
             assert!(self.connection.is_some());
             if !self.is_path_initialized {
-                let mut serializer = track_try_unwrap!(UrlPathSerializer::new(
+                let mut serializer = track!(UrlPathSerializer::new(
                     &self.entry_point,
                     &mut self.temp_url,
-                ));
-                track_try_unwrap!(().serialize(&mut serializer));
+                ))?;
+                track!(().serialize(&mut serializer))?;
             }
-            self.build_request()
+            Ok(self.build_request())
         }
     }
 
@@ -241,7 +241,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 Ok(())
             }
             "header" => {
-                let mut request = self.take_request();
+                let mut request = track!(self.take_request())?;
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
-- 
2.43.0


From f2c9aa0f73e5c27cb289984e7300467b91f1012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:13 +0000
Subject: [PATCH 34/34] fix: do not use a handler from several threads at the
 same time

---
 src/router.rs | 5 ++---
 src/server.rs | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f566963..7585287 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -13,13 +13,12 @@ use {Error, ErrorKind, Result};
 
 type HandleHttpRequestResult = Box<dyn Future<Item = HttpResponse, Error = Error> + Send + 'static>;
 type HandleHttpRequest =
-    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
+    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + Sync + 'static>;
 
 #[derive(Clone)]
 pub struct Router {
     trie: Arc<Trie>,
 }
-unsafe impl Send for Router {}
 impl Router {
     pub fn route(
         &self,
@@ -54,7 +53,7 @@ impl RouterBuilder {
         handler: H,
     ) -> Result<()>
     where
-        H: Send + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
+        H: Send + Sync + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
     {
         track!(self.trie.insert(method, &entry_point, Box::new(handler)))?;
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index a10cc6b..d1c7d0b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,6 +10,7 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io::{self, Read, Write};
 use std::net::SocketAddr;
+use std::sync::Mutex;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -51,8 +52,10 @@ impl RpcServerBuilder {
         H: HandleRpc<P>,
     {
         use RpcRequest;
+        // NOTE: The connections may be served by different threads, but `H` may not be `Sync`.
+        let handler = Mutex::new(handler);
         let handle_http_request = move |url, http_request| {
-            let handler = handler.clone();
+            let handler = handler.lock().unwrap_or_else(|e| e.into_inner()).clone();
             let rpc_request: P::Request = {
                 let deserialize_result = {
                     let mut de = RpcRequestDeserializer::new(P::entry_point(), &url, &http_request);
-- 
2.43.0

