From 3764c4ef7e8a6514ad9e08d42273c436a01f2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:36 +0000
Subject: [PATCH 01/53] fix: tuples raise the url-encoder's nesting level once,
 as they lower it

---
 crates/core/src/urlencode/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..8445da3 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -242,7 +242,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
-- 
2.43.0


From 26470e0648a2da1c0f4958cd2c28d56b2a5456d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:36 +0000
Subject: [PATCH 02/53] fix: url-encode a top-level map as key=value pairs,
 like a struct

---
 crates/core/src/urlencode/ser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 8445da3..06d2a60 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -434,8 +434,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -444,12 +448,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.output += "=";
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From 27e3ce5979de7551f0a95a60d0b6ef7a97664549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:36 +0000
Subject: [PATCH 03/53] fix: escape strings nested in a url-encoded JSON value

---
 crates/core/src/urlencode/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 06d2a60..5d713c2 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -137,9 +137,9 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            // a string within a nested value is a JSON string
+            self.output +=
+                &serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
         } else {
             self.output += v;
         }
-- 
2.43.0


From a768158b473a2a5942747e67373e13478f457e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 04/53] fix: escape `&`, `=` and `%` in url-encoded keys and
 values

---
 crates/core/src/urlencode/ser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 5d713c2..0e3206f 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -1,11 +1,16 @@
-use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use serde::{ser, Serialize};
 
 use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~')
+        // content has been escaped already, see `CONTENT`
+        .remove(b'%');
+
+/// Characters that would be taken for structure if content kept them.
+const CONTENT: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -138,10 +143,10 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
             // a string within a nested value is a JSON string
-            self.output +=
-                &serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
         } else {
-            self.output += v;
+            self.output += &utf8_percent_encode(v, CONTENT).to_string();
         }
         Ok(())
     }
-- 
2.43.0


From 853550e688e27f85d65ed3b33e9650f6b1397b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 05/53] fix: split a url-encoded string before decoding its
 keys and values

---
 crates/core/src/urlencode.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..f209287 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -6,6 +6,7 @@ mod ser;
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
 use serde::de::DeserializeOwned;
+use serde_json::{Map, Value};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +49,29 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    // HACK: deserializing with `serde_json` makes decoding trivial
+    let mut fields = Map::new();
+
+    // split before decoding: a decoded `&` or `=` is content
+    for pair in s.split('&') {
+        let Some((key, value)) = pair.split_once('=') else {
+            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
+        };
+        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
+        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
+
+        // nested values are JSON objects or arrays
+        let field = if value.starts_with(['{', '[']) {
+            serde_json::from_str(&value).unwrap_or(Value::String(value))
+        } else {
+            Value::String(value)
+        };
+        if fields.insert(key, field).is_some() {
+            return Err(Error::Message("duplicate field".to_string()));
+        }
+    }
+
+    serde_json::from_value(Value::Object(fields)).map_err(|e| Error::Message(e.to_string()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 35eb7c8afa4adbe08781fa33c96773ad8538e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 06/53] fix: match a string node against the constant, not its
 JSON text

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..4b4b4e0 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,7 +109,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
         Value::Null => Ok(true),
-- 
2.43.0


From 36a1aa15e20f642850bdca9b390e51d74a795b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 07/53] fix: a null node does not match a constant

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 4b4b4e0..14acb7d 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -112,7 +112,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
+        Value::Null => Ok(false),
         Value::Object(_) => {
             unimplemented!("object matching not implemented")
         }
-- 
2.43.0


From 7a581e94ca08c8a890ba00a7d42b6b2b892e23f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 08/53] fix: do not panic on object nodes or unsupported filter
 formats

---
 crates/dif-exch/src/matcher.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 14acb7d..ed08dd5 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -113,9 +113,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
         Value::Null => Ok(false),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Object(_) => Ok(false),
     }
 }
 
@@ -146,7 +144,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("unsupported format: {format}")),
     }
 }
 
-- 
2.43.0


From dbb403740074d5f8b1d32b0c0fb48b0bcdb4e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 09/53] fix: match a pattern against a string node's content,
 not its JSON text

---
 crates/dif-exch/src/matcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index ed08dd5..c4523bc 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -126,7 +126,9 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    // match the content of a string node, not its (quoted) JSON text
+    let text = vc_node.as_str().map_or_else(|| vc_node.to_string(), ToString::to_string);
+    Ok(re.captures(&text).is_some())
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From 7cd9ebc771a95b36343b7570b797756f90b47029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 10/53] fix: an optional field that is present must match its
 filter

---
 crates/dif-exch/src/matcher.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index c4523bc..5196f91 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -35,7 +35,9 @@ impl Constraints {
         // EVERY field must match
         for field in fields {
             // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            // (when the field is present, its value must match even if optional)
+            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
+            if !field.matched(&vc_val).unwrap_or_default() && !optional {
                 return Ok(false);
             }
         }
@@ -82,6 +84,14 @@ impl Field {
 
         Ok(false)
     }
+
+    /// Check whether any of the field's JSON path expressions selects a value.
+    fn present(&self, vc: &Value) -> bool {
+        self.path
+            .iter()
+            .filter_map(|path| JsonPath::parse(path).ok())
+            .any(|jpath| !jpath.query(vc).all().is_empty())
+    }
 }
 
 impl FilterValue {
-- 
2.43.0


From 8d751747deffcd541cc51fe5dc827f722a88e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 11/53] fix: name the missing key in the macros' error

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From d33ea652f8cff972c5a5d66f74a50334b2256c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 12/53] fix: separate the elements of generated lists

---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/create_offer.rs  | 4 ++--
 crates/macros/src/token.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..d97e1e4 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -93,7 +93,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
                 locations: None
-            }
+            },
         });
     }
 
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..46a6ea7 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -58,10 +58,10 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
                     return Err(Error::new(
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..19d04cb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -118,7 +118,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
                 locations: None
-            }
+            },
         });
     }
 
-- 
2.43.0


From 81b75e2298921b26df223d6650b526cadf1bcbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 13/53] fix: report malformed grant types instead of panicking

---
 crates/macros/src/create_offer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 46a6ea7..245455f 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -55,8 +55,15 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     if let Some(gts) = input {
         let mut tokens = TokenStream::new();
 
-        for gt in gts.as_array().unwrap() {
-            match gt.as_str().unwrap() {
+        let Some(gts) = gts.as_array() else {
+            return Err(Error::new(span, "`grant_types` must be an array"));
+        };
+
+        for gt in gts {
+            let Some(gt) = gt.as_str() else {
+                return Err(Error::new(span, "`grant_types` must be strings"));
+            };
+            match gt {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                     tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
@@ -64,10 +71,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                     tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
-                    return Err(Error::new(
-                        span,
-                        format!("unsupported grant type: {}", gt.as_str().unwrap()),
-                    ));
+                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                 }
             }
         }
-- 
2.43.0


From 19740112cd95533a26739a8f615dea20acb8ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 14/53] fix: qualify the default send type

---
 crates/macros/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 245455f..dddfd9c 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From 8849b536e52c95c640577159345ba8c2de96d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 15/53] fix: reject duplicate keys instead of dropping all but
 the last

---
 crates/macros/src/parse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index f57d6ca..dd19396 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -79,7 +79,9 @@ impl Parse for Json {
         let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
         for field in fields.into_pairs() {
             let field = field.into_value();
-            json.fields.insert(field.lhs, field.rhs);
+            if json.fields.insert(field.lhs, field.rhs).is_some() {
+                return Err(content.error("duplicate field"));
+            }
         }
 
         Ok(json)
@@ -120,7 +122,9 @@ impl Parse for Value {
             let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
             for field in fields.into_pairs() {
                 let field = field.into_value();
-                data.insert(field.lhs, field.rhs);
+                if data.insert(field.lhs, field.rhs).is_some() {
+                    return Err(content.error("duplicate field"));
+                }
             }
             Self::Object(data)
         } else if l.peek(token::Bracket) {
-- 
2.43.0


From 2dd2591f6eb563d78cf2646ce91155c2b2c69a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 16/53] fix: generate existing types for a token request's
 claims

---
 crates/macros/src/token.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 19d04cb..fb7c137 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -134,9 +134,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -236,7 +234,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
 
         // build claims map
         let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
+            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
         });
 
         Ok(quote! {
-- 
2.43.0


From bac808cd98d2558ada6296579dd5e0d98d05f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:36 +0000
Subject: [PATCH 17/53] fix: try a field's next path when a value does not
 match its filter

---
 crates/dif-exch/src/matcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 5196f91..0d8fe04 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -76,7 +76,8 @@ impl Field {
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(true),
-                    Ok(false) => break,
+                    // not a match: try next path
+                    Ok(false) => {}
                     Err(e) => return Err(e),
                 }
             }
-- 
2.43.0


From fd80f428a6a248b4c4191310d06bbb7cf1d00f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:01 +0000
Subject: [PATCH 18/53] fix: report an invalid path or filter, as documented,
 instead of a mismatch

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 0d8fe04..a3a2895 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -37,7 +37,7 @@ impl Constraints {
             // if no match AND the field is not optional, constraints are not satisfied
             // (when the field is present, its value must match even if optional)
             let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
-            if !field.matched(&vc_val).unwrap_or_default() && !optional {
+            if !field.matched(&vc_val)? && !optional {
                 return Ok(false);
             }
         }
-- 
2.43.0


From 7fe4401fd2c1d7c52ac1a2160deb9445dd913216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:30 +0000
Subject: [PATCH 19/53] fix: match a pattern against the strings of a list, not
 its JSON text

---
 crates/dif-exch/src/matcher.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index a3a2895..548894c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -137,9 +137,15 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    // match the content of a string node, not its (quoted) JSON text
-    let text = vc_node.as_str().map_or_else(|| vc_node.to_string(), ToString::to_string);
-    Ok(re.captures(&text).is_some())
+    // match the content of a string node, or of one in an array, not the JSON text
+    match vc_node {
+        Value::Array(arr_node) => {
+            Ok(arr_node.iter().filter_map(Value::as_str).any(|str_node| re.is_match(str_node)))
+        }
+        Value::String(str_node) => Ok(re.is_match(str_node)),
+        Value::Number(num_node) => Ok(re.is_match(&num_node.to_string())),
+        Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From a8e8e653f9bdacecf1fab4076bd4d3b5d68bcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:40 +0000
Subject: [PATCH 20/53] fix: accept pushed authorization requests when the
 server requires them

The pushed request was verified as if it were a direct request, so a server
requiring pushed requests refused every one of them.
---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 8104c66e33887a08bee5bd25c50ee8d418df30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:40 +0000
Subject: [PATCH 21/53] fix: refuse authorization details for unsupported
 credential configurations

The configuration was looked up only when claims were requested, so a request
for an unknown configuration was accepted and saved as authorized.
---
 vercre-issuer/src/authorize.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..f3738fc 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -300,14 +300,16 @@ impl Context {
                 }
             };
 
+            // check credential is supported
+            let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
+            else {
+                return Err(Error::InvalidAuthorizationDetails(
+                    "invalid credential_configuration_id".into(),
+                ));
+            };
+
             // check claims are supported and include all mandatory claims
             if let Some(requested) = &claims {
-                let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
-                else {
-                    return Err(Error::InvalidAuthorizationDetails(
-                        "invalid credential_configuration_id".into(),
-                    ));
-                };
                 config
                     .verify_claims(requested)
                     .map_err(|e| Error::InvalidRequest(e.to_string()))?;
-- 
2.43.0


From eb7b563e32262d17b868d2239c60038a733c8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 22/53] fix: allow anonymous pre-authorized token requests
 where the server supports them

---
 vercre-issuer/src/token.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..0ea2c8b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,8 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if request.client_id.as_ref().map_or(true, String::is_empty)
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From 9c3c7da1ab93f0eefcbdb5ebfbb8ad0d82bccf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 23/53] fix: keep an access token for the lifetime announced
 with it

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 0ea2c8b..75dfd5e 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -212,6 +212,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 8e1da8eb932460ecd8cbb65f834376a140c723e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 24/53] fix: refuse a credential request whose list of proofs
 is empty

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 568e48c54c3e7a5e4b951a1c873a27a8ad6b77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 25/53] fix: refuse key proofs made for another credential
 issuer

---
 vercre-issuer/src/credential.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..0865187 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -152,6 +152,13 @@ impl Context {
                         .await?);
                 }
 
+                // proof is intended for this issuer
+                if jwt.claims.aud != request.credential_issuer {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT 'aud' is not the credential issuer")
+                        .await?);
+                }
+
                 // Key ID
                 let KeyType::KeyId(kid) = &jwt.header.key else {
                     return Err(self.invalid_proof(provider, "Proof JWT 'kid' is missing").await?);
-- 
2.43.0


From dfac1cc1fe0ce8eb85ca214c7a4cc3c8ee79e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 26/53] fix: look up the status of the credential being issued

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 0865187..873be04 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -271,7 +271,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From c3b285553c3353a480c617b3b955b262c3bd9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 27/53] fix: return an error for credential formats that cannot
 be issued yet

---
 vercre-issuer/src/credential.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 873be04..abb349b 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -213,9 +213,11 @@ impl Context {
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
-            Format::JwtVcJsonLd(_) => todo!(),
-            Format::LdpVc(_) => todo!(),
-            Format::VcSdJwt(_) => todo!(),
+            Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
+                return Err(Error::UnsupportedFormat(
+                    "credential format is not supported".into(),
+                ));
+            }
         };
 
         // update token state with new `c_nonce`
-- 
2.43.0


From 39a2d2456a704d9b1afe45462e63f4b3932f838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 28/53] fix: keep a deferred transaction while issuance is
 pending

---
 vercre-issuer/src/deferred.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..746bfb0 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -66,6 +61,11 @@ async fn process(
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From 5db2f93db4591714e8685c1baac4d07f70b30074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 29/53] fix: register clients only with a live access token

---
 vercre-issuer/src/register.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/register.rs b/vercre-issuer/src/register.rs
index 8aa7875..8beefee 100644
--- a/vercre-issuer/src/register.rs
+++ b/vercre-issuer/src/register.rs
@@ -5,7 +5,7 @@ use vercre_openid::issuer::{Provider, RegistrationRequest, RegistrationResponse,
 use vercre_openid::{Error, Result};
 
 // use crate::shell;
-use crate::state::State;
+use crate::state::{Stage, State};
 
 /// Registration request handler.
 ///
@@ -25,10 +25,18 @@ async fn verify(provider: &impl Provider, request: &RegistrationRequest) -> Resu
     tracing::debug!("register::verify");
 
     // verify state is still accessible (has not expired)
-    match StateStore::get::<State>(provider, &request.access_token).await {
-        Ok(_) => Ok(()),
-        Err(e) => Err(Error::ServerError(format!("State not found: {e}"))),
+    let state = match StateStore::get::<State>(provider, &request.access_token).await {
+        Ok(state) => state,
+        Err(e) => return Err(Error::ServerError(format!("State not found: {e}"))),
+    };
+    if state.is_expired() {
+        return Err(Error::AccessDenied("access token has expired".into()));
     }
+    let Stage::Validated(_) = state.stage else {
+        return Err(Error::AccessDenied("invalid access token".into()));
+    };
+
+    Ok(())
 }
 
 async fn process(
-- 
2.43.0


From 7603c45e4db100710837a4ec04fe0ecc4adde4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 30/53] fix: create offers for issuers with an empty list of
 authorization servers

---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From e10f697998cd10435a05148f948ec58bb541e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 31/53] fix: refuse requested claims the credential
 configuration does not support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From d57ddf83aab5ee798b7fc09b3966ac46c24d78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 32/53] fix: issue only the claims that were authorized

---
 vercre-issuer/src/token.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 75dfd5e..3fff707 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -330,13 +330,25 @@ fn authorized_credentials(items: &[AuthorizedItem]) -> HashMap<String, Authorize
     let mut authorized = HashMap::new();
 
     for item in items {
+        // limit issuance to the authorized subset of claims (if specified)
+        let claims = match &item.item {
+            ItemType::AuthorizationDetail(detail) => match &detail.credential {
+                CredentialAuthorization::ConfigurationId { claims, .. } => {
+                    claims.as_ref().and_then(ProfileClaims::claims)
+                }
+                CredentialAuthorization::Format(fmt) => fmt.claims(),
+            },
+            ItemType::Scope(_) => None,
+        };
+        let claim_ids = claims.map(|claims| claims.into_keys().collect::<Vec<String>>());
+
         for identifier in &item.credential_identifiers {
             authorized.insert(
                 identifier.clone(),
                 Authorized {
                     credential_identifier: identifier.clone(),
                     credential_configuration_id: item.credential_configuration_id.clone(),
-                    claim_ids: None,
+                    claim_ids: claim_ids.clone(),
                 },
             );
         }
-- 
2.43.0


From 61e7351be40974df20f816424b669321a94e298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:16 +0000
Subject: [PATCH 33/53] fix: refuse presentation responses without a
 presentation

---
 vercre-verifier/src/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..c467838 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -69,6 +69,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         return Err(Error::InvalidRequest("vp_token not founnd".into()));
     };
 
+    if vp_token.is_empty() {
+        return Err(Error::InvalidRequest("vp_token is empty".into()));
+    }
+
     let mut vps = vec![];
 
     // check nonce matches
-- 
2.43.0


From 11f1550acab784e02e4e7826c76ef503ae630e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:16 +0000
Subject: [PATCH 34/53] fix: refuse expired presentation requests

---
 vercre-verifier/src/request_object.rs |  3 +++
 vercre-verifier/src/response.rs       |  3 +++
 vercre-verifier/src/state.rs          | 12 ++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..ac0df34 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index c467838..71d5ca2 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..9818d03 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn is_expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From 32649696e5d45d3062277d76cee3ff637e125d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:16 +0000
Subject: [PATCH 35/53] fix: refuse signed presentations made for another
 verifier

---
 vercre-verifier/src/response.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index 71d5ca2..c7e84bb 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -80,11 +80,19 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
-            Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
-            Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
-        };
+        let (vp, client_id, nonce) =
+            match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
+                Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
+                Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
+                Err(e) => {
+                    return Err(Error::ServerError(format!("issue verifying VP proof: {e}")))
+                }
+            };
+
+        // check presentation is intended for this Verifier
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("client_id does not match".into()));
+        }
 
         // else {
         //     return Err(Error::InvalidRequest("invalid vp_token".into()));
-- 
2.43.0


From 8985b3fbf6a6acacbd3c9be42ebdab2d3edb2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:25 +0000
Subject: [PATCH 36/53] fix: save issued state for the notification endpoint,
 not a second access token

---
 vercre-issuer/src/credential.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index abb349b..7bcbf13 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -205,12 +205,14 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
-        let response = match &self.configuration.format {
+        let (response, credential) = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
+            }
+            Format::IsoMdl(_) => {
+                (self.mso_mdoc(dataset, signer).await?, VerifiableCredential::default())
             }
-            Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
             Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
@@ -236,9 +238,8 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        // TODO: save `mso_mdoc` credentials
+        state.stage = Stage::Issued(Credential { credential });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From 09f1b8bf8eaf6b1a861043acf9e59c1c659eec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 37/53] fix: do not panic on a credential with an empty list of
 subjects

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..b3052f5 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|s| s.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From ea01d377adbf24c427d9a78521389ad21c22340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 38/53] fix: do not panic on authorization server metadata with
 empty lists

---
 vercre-holder/src/issuance/authorize.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..c15bd31 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -263,15 +263,23 @@ fn authorization_request(
     else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
+    let Some(code_challenge_method) = code_challenge_methods.first().cloned() else {
+        return Err(anyhow!("code challenge methods missing from authorization server metadata"));
+    };
+    let Some(response_type) =
+        issuance.authorization_server.oauth.response_types_supported.first().cloned()
+    else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type,
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method,
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
-- 
2.43.0


From df3514a6dbf9a6351ba43ef21c8e95573a76d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 39/53] fix: do not panic on a credential configuration with an
 empty display list

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..2e5729d 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -318,7 +318,7 @@ async fn credential(
     // Base64-encoded logo if possible.
     if let Some(display) = &config.display {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = display.first().and_then(|d| d.logo.as_ref()) {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From e256379e3af8a97e986a1c7d6ab2477f324ee71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 40/53] fix: do not panic on an empty or non-ASCII presentation
 string

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From a45298fcc0167ce571932f246b1edf11061300b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 41/53] fix: do not panic on a short presentation status string

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From e45ae75665c44db291a8e51e8b7921ae94dd351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 42/53] fix: report status values outside the list instead of
 panicking

---
 crates/status/src/bitstring.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..3d70238 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -150,7 +150,7 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
+            let position = status.list_index.checked_mul(config.size).unwrap_or(bits.len());
             if position >= bits.len() {
                 return Err(anyhow!("status index out of range"));
             }
@@ -160,6 +160,9 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
+                    if value.len() > bits.len() - position {
+                        return Err(anyhow!("status index out of range"));
+                    }
                     for (i, bit) in value.iter().enumerate() {
                         bits.set(position + i, *bit);
                     }
-- 
2.43.0


From 349704011f4aade9f5fa78c44e47f615edd0c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:55 +0000
Subject: [PATCH 43/53] fix: never overflow when drawing a digest identifier

---
 crates/iso-mdl/src/mso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..9168d64 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen::<i32>() & i32::MAX;
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 42ec3304ef75850286430b6aa56a9b22dee4c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:01 +0000
Subject: [PATCH 44/53] fix: escape error descriptions in the JSON form of
 errors

---
 crates/openid/src/error.rs | 48 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..f517e06 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, json(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, json(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, json(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, json(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, json(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, json(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, json(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, json(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, json(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, json(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, json(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, json(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, json(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, json(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, json(.hint), json(.c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, json(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, json(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, json(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, json(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        json(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +161,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, json(.0))]
     WalletUnavailable(String),
 }
 
+/// Quotes and escapes text for inclusion in the JSON form of an error.
+fn json(text: &str) -> serde_json::Value {
+    serde_json::Value::from(text)
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From 0264119ac056ed4aed9241fa38928642060c17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:01 +0000
Subject: [PATCH 45/53] fix: let the issuance pending error be serialized

---
 crates/openid/src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index f517e06..21d013a 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -178,7 +178,8 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
-    pub error_description: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub error_description: Option<String>,
 
     /// Optional client-state parameter.
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -191,6 +192,11 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum number of seconds to wait before asking again for a
+    /// credential that is still pending.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From cfa2d19458233664b270045968a455ac11c38851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 46/53] fix: address the wallet's key proof to the issuer of a
 wallet-initiated issuance

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 2e5729d..68d9795 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -88,7 +88,7 @@ pub async fn credentials(
     // Construct a proof to be used in the credential requests.
     let claims = ProofClaims {
         iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
+        aud: issuance.issuer.credential_issuer.clone(),
         iat: chrono::Utc::now().timestamp(),
         nonce: issuance.token.c_nonce.clone(),
     };
-- 
2.43.0


From c7ef7c56d9298f713916e44526c0bef52459df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 47/53] fix: use the latest nonce in the key proof of each
 credential request

---
 vercre-holder/src/issuance/credentials.rs | 60 +++++++++++++----------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 68d9795..04c3c02 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.issuer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,23 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof for a credential request, using the latest nonce provided
+// by the issuer.
+async fn key_proof(
+    provider: impl HolderProvider, issuance: &Issuance,
+) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +151,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = key_proof(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -180,12 +179,18 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
     Ok(())
 }
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,6 +222,7 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = key_proof(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
-- 
2.43.0


From c45046623f678665b3967a3e89ffc5275c89c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 48/53] fix: keep the wallet's issuance state after saving
 while credentials are deferred

---
 vercre-holder/src/issuance/save.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..991d244 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -68,7 +69,7 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
     issuance.credentials.clear();
 
     // Notify issuer if we have been given a notification ID.
-    if let Some(notification_id) = issuance.notification_id {
+    if let Some(notification_id) = issuance.notification_id.take() {
         if let Err(e) = Issuer::notification(
             &provider,
             NotificationRequest {
@@ -94,6 +95,12 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         }
         return Ok(request.issuance_id.clone());
     }
+    StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await.map_err(
+        |e| {
+            tracing::error!(target: "Endpoint::save", ?e);
+            e
+        },
+    )?;
 
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From 3e7b90e1189e6868fbc3e0010b5e2ddaf49b8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 49/53] fix: accept only credentials that were offered

---
 vercre-holder/src/issuance/accept.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..d7834a4 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -79,6 +79,12 @@ pub async fn accept(
             tracing::error!(target: "Endpoint::accept", ?e);
             return Err(e);
         }
+        let offered = &issuance.offer.credential_configuration_ids;
+        if accepted.iter().any(|spec| !offered.contains(&spec.credential_configuration_id)) {
+            let e = anyhow!("credential configuration accepted not found in offer");
+            tracing::error!(target: "Endpoint::accept", ?e);
+            return Err(e);
+        }
     };
 
     issuance.accepted =
-- 
2.43.0


From dd8a821bb0a2f46d50a27dc6566f73cece38ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 50/53] fix: do not drop the accepted selection when
 authorizing an offer

---
 vercre-holder/src/issuance/authorize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index c15bd31..5ea306f 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,9 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From dd14463634bdced276354c0c18e722db9f38b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 51/53] fix: refuse an authorization response to another
 request

---
 vercre-holder/src/issuance/authorize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 5ea306f..677f1a3 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -190,6 +190,11 @@ pub async fn authorize(
 
     // Construct a token request using the authorization response and request an
     // access token from the issuer.
+    if auth_response.state.as_ref() != Some(&issuance.id) {
+        let e = anyhow!("authorization response is not for this request");
+        tracing::error!(target: "Endpoint::authorize", ?e);
+        return Err(e);
+    }
     let token_request = token_request(&issuance, request, &auth_response);
     issuance.token = Issuer::token(&provider, token_request).await.map_err(|e| {
         tracing::error!(target: "Endpoint::authorize", ?e);
-- 
2.43.0


From 77447131cb1c395334c22a83fe5816f6068527d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:13 +0000
Subject: [PATCH 52/53] fix: ask for an authorization code, whatever else the
 server supports

---
 vercre-holder/src/issuance/authorize.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 677f1a3..e695d8a 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -20,6 +20,7 @@ use vercre_issuer::{
     CredentialAuthorization, CredentialDefinition, Format, GrantType, ProfileClaims, RequestObject,
     TokenGrantType, TokenRequest,
 };
+use vercre_openid::issuer::ResponseType;
 
 use super::{Issuance, Status};
 use crate::issuance::token::{authorized_credentials, AuthorizedCredentials};
@@ -273,15 +274,18 @@ fn authorization_request(
     let Some(code_challenge_method) = code_challenge_methods.first().cloned() else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
-    let Some(response_type) =
-        issuance.authorization_server.oauth.response_types_supported.first().cloned()
-    else {
-        return Err(anyhow!("response types missing from authorization server metadata"));
-    };
+    if !issuance
+        .authorization_server
+        .oauth
+        .response_types_supported
+        .contains(&ResponseType::Code)
+    {
+        return Err(anyhow!("authorization server does not support the code response type"));
+    }
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type,
+        response_type: ResponseType::Code,
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
-- 
2.43.0


From 55eb238f21a36be8e2a45ea4651502728fc90902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 53/53] fix: separate members of a top-level variant after text
 ending in a bracket

---
 crates/core/src/urlencode/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 0e3206f..599a060 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -10,7 +10,7 @@ const UNRESERVED: &AsciiSet =
         .remove(b'%');
 
 /// Characters that would be taken for structure if content kept them.
-const CONTENT: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=');
+const CONTENT: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=').add(b'[').add(b'{');
 
 /// Serializes a value to a url-encoded string.
 ///
-- 
2.43.0

