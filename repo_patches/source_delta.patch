From d1e6305b89d334f9997ed66312c0be913997787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 1/7] fix: reject day 0 in dates

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..e599609 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day == 0 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From f1aaa78c66196415f937d984d8989a14ef27939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 2/7] fix: parse nested comments without recursion

---
 email-parser/src/parsing/whitespaces.rs | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..2808229 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -27,6 +27,7 @@ pub fn fws(input: &[u8]) -> Res<Cow<str>> {
     }
 }
 
+/// Content of a comment, except nested comments that are handled by [comment].
 #[inline]
 pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
     match_parsers(
@@ -37,21 +38,32 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
                 Ok((input, Cow::Borrowed(value)))
             }) as fn(input: &[u8]) -> Res<Cow<str>>,
             quoted_pair,
-            comment,
         ][..],
     )
 }
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
 
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
+    // Nested comments are counted instead of being parsed recursively, so that the depth of the
+    // stack does not depend on the input.
+    let mut depth: usize = 1;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
 
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+        if let Ok((new_input, _content)) = ccontent(new_input) {
+            input = new_input;
+        } else if new_input.starts_with(b"(") {
+            input = &new_input[1..];
+            depth += 1;
+        } else {
+            let (new_input, ()) =
+                tag(new_input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+            input = new_input;
+            depth -= 1;
+        }
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From cec88c70eec74dccc658601abb41b35629db115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 3/7] fix: do not overflow on the 256th parameter continuation

---
 email-parser/src/parsing/mime/percent_encoding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..ffe2993 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -175,7 +175,10 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
+                idx = match idx.checked_add(1) {
+                    Some(idx) => idx,
+                    None => break,
+                };
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From 3d42762788319afdf46db5020dfa1dfeeaf5106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 4/7] fix: decode extended parameters without index

---
 email-parser/src/parsing/mime/percent_encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index ffe2993..6dcc0d8 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -101,6 +101,8 @@ pub fn collect_parameters<'a>(
     let mut parameters: HashMap<_, _> = HashMap::new();
     let mut complex_parameters: HashMap<_, HashMap<_, _>> = HashMap::new();
     for (name, index, encoded, value) in parameters_vec {
+        // An encoded parameter without index is not continued, its value is encoded as the first section
+        let index = if encoded { index.or(Some(0)) } else { index };
         if let Some(index) = index {
             if !complex_parameters.contains_key(&name) {
                 complex_parameters.insert(name.clone(), HashMap::new());
-- 
2.43.0


From 79acc60a974c507d473ba050bf24dffccb779ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 5/7] fix: do not panic on unassigned iso-6937 bytes

---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 13 +++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..59d58fc 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,16 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// Decodes ISO 6937 text.\
+/// `textcode` panics on bytes `0x80..=0x9F`. They are not assigned in this charset, so they are
+/// replaced by `0xC0`, which is not assigned either and is decoded as U+FFFD.
+pub(crate) fn decode_iso6937(data: &[u8]) -> String {
+    let mut data = data.to_vec();
+    for byte in data.iter_mut() {
+        if *byte >= 0x80 && *byte <= 0x9F {
+            *byte = 0xC0;
+        }
+    }
+    textcode::iso6937::decode_to_string(&data)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 6dcc0d8..66fba94 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -87,7 +87,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From 5763d050607fd960f15bffb6e25bd38d26a4465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 6/7] fix: do not decode percent-encoded data twice

---
 .../src/parsing/mime/percent_encoding.rs      | 42 +++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 66fba94..8043991 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -33,38 +33,28 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
-            percents.push(idx);
+    fn from_hex(n: &u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
         }
     }
 
-    for percent in percents.iter().rev() {
-        fn from_hex(n: &u8) -> Option<u8> {
-            match n {
-                b'0'..=b'9' => Some(n - b'0'),
-                b'A'..=b'F' => Some(10 + n - b'A'),
-                b'a'..=b'f' => Some(10 + n - b'a'),
-                _ => None,
-            }
-        }
-
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
-            if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
+    // Decoding from left to right ensures that decoded data is never decoded again.
+    let mut percent = 0;
+    while percent < input.len() {
+        if input[percent] == b'%' {
+            if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
+                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
+                    input[percent] = first * 16 + second;
+                    input.remove(percent + 2);
+                    input.remove(percent + 1);
                 }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
             }
         }
+        percent += 1;
     }
 
     use textcode::*;
-- 
2.43.0


From f5601e7284e5480204f46e10d7874b4683d01284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 7/7] Add guarded verification hooks (cfg email_parser_verif)

---
 email-parser/src/lib.rs | 51 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/email-parser/src/lib.rs b/email-parser/src/lib.rs
index e5ef2d0..fedbc61 100644
--- a/email-parser/src/lib.rs
+++ b/email-parser/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)]
 #![allow(clippy::manual_range_contains)]
 #![allow(clippy::inconsistent_struct_constructor)]
+#![allow(unexpected_cfgs)]
 
 //! The fastest and lightest email parsing Rust library!\
 //! This library has no dependency.
@@ -65,3 +66,53 @@ pub mod time;
 
 pub use crate::parsing::fields::Field;
 pub use crate::parsing::message::parse_message;
+
+/// Access to the internal parsers for verification tools, enabled with `--cfg email_parser_verif`.
+#[cfg(email_parser_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub mod whitespaces {
+        pub use crate::parsing::whitespaces::*;
+    }
+    pub mod common {
+        pub use crate::parsing::common::*;
+    }
+    pub mod quoted_string {
+        pub use crate::parsing::quoted_string::*;
+    }
+    pub mod address {
+        pub use crate::parsing::address::*;
+    }
+    pub mod message {
+        pub use crate::parsing::message::*;
+    }
+    pub mod time {
+        pub use crate::parsing::time::*;
+    }
+    pub mod fields {
+        pub use crate::parsing::fields::*;
+    }
+    pub mod character_sets {
+        pub use crate::parsing::character_sets::*;
+    }
+    #[cfg(feature = "mime")]
+    pub mod mime {
+        pub use crate::parsing::mime::base64::*;
+        pub use crate::parsing::mime::encoded_headers::*;
+        pub use crate::parsing::mime::entity::*;
+        pub use crate::parsing::mime::mime_fields::*;
+        pub use crate::parsing::mime::multipart::*;
+        pub use crate::parsing::mime::percent_encoding::*;
+        pub use crate::parsing::mime::quoted_printables::*;
+    }
+    pub mod string {
+        use std::borrow::Cow;
+
+        pub fn add_string<'a, 'b>(s1: &'b mut Cow<'a, str>, s2: Cow<'a, str>) {
+            crate::string::add_string(s1, s2)
+        }
+        pub fn add_str<'a, 'b>(s1: &'b mut Cow<'a, str>, s2: &'a str) {
+            crate::string::add_str(s1, s2)
+        }
+    }
+}
-- 
2.43.0

