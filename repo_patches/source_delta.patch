From d71d737aeb28a3a8a00bd15395cd62e9c26da350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 1/7] fix: decode surrogate pairs above plane 1 correctly

The surrogate base was combined with a bitwise or, which loses the carry
for every code point whose plane number is even (e.g. \ud840\udc00 decoded to
U+10000 rather than U+20000).
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..af9c349 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From 75cdab1e1cd3da421a637bf59a9e28fba2087887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 2/7] fix: write \u escapes most significant digit first

Control characters without a short escape were written with their hexadecimal
digits reversed (U+0001 became \u1000), and digits above 9 were not hexadecimal
characters at all (U+000B became \ul000).
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index af9c349..b4873fa 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From cdb3462ae8f0d3cd4dee90adf81f7b7b4dc3ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 3/7] fix: count U+0080 to U+00FF as two bytes in string
 lengths

u8::try_from(char) succeeds up to U+00FF, so these characters were counted as a
single byte, making len() and decoded_len() too small for JsonString::from.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index b4873fa..6819b37 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From dfc24f41c28ee81549a7490cb488058f5df1560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 4/7] fix: compare decoded lengths in JsonString equality

The encoded lengths of two equal strings can differ ("\u000a" and a raw
newline, which would be written as "\n"), so equal strings compared unequal
while ordering and hashing considered them equal.
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6819b37..45400ed 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if other.decoded_len() == self.decoded_len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if self.decoded_len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From 2757634cdc641694e9737a70cda69ffe9c4d323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 5/7] fix: correct AsJson's upper size hint for strings being
 escaped

Escaping yields more characters than the source has, which exceeded the upper
bound that size_hint returned.
---
 src/string.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 45400ed..1d24e9d 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -887,7 +887,16 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        match &self.state {
+            EscapeState::AlreadyEscaped => (lower, upper),
+            // Each remaining character can be escaped to up to 6 characters,
+            // and up to 5 characters of the current escape may be remaining.
+            _ => (
+                lower,
+                upper.and_then(|upper| upper.checked_mul(6)?.checked_add(5)),
+            ),
+        }
     }
 }
 
-- 
2.43.0


From 6c863fa4c9f40fe2df568dd9c0da7cd21d95ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 6/7] fix: show a single closing brace in the unclosed object
 error message

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 3807845..77eaca3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -357,7 +357,7 @@ where
                 f.write_str("invalid hexadecimal in unicode escape sequence")
             }
             ErrorKind::InvalidEscape => f.write_str("invalid escaped character"),
-            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}}')"),
+            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}')"),
             ErrorKind::UnclosedArray => f.write_str("expected end of array (']')"),
             ErrorKind::UnclosedString => f.write_str("expected end of string ('\"')"),
             ErrorKind::ExpectedString => f.write_str("expected a string"),
-- 
2.43.0


From 513677d61657ce22e95f01a5f1ecb208e9271d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 7/7] fix: show the unexpected byte itself rather than its
 decimal value

---
 src/error.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 77eaca3..f4f45b4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -341,7 +341,9 @@ where
             ErrorKind::ExpectedCommaOrEndOfObject => f.write_str("expected comma or end of object"),
             ErrorKind::ExpectedCommaOrEndOfArray => f.write_str("expected comma or end of array"),
             ErrorKind::IllegalTrailingComma => f.write_str("trailing commas are not allowed"),
-            ErrorKind::Unexpected(ch) => write!(f, "unexpected character: '{ch}'"),
+            ErrorKind::Unexpected(ch) => {
+                write!(f, "unexpected character: '{}'", ch.escape_ascii())
+            }
             ErrorKind::TrailingNonWhitespace => {
                 f.write_str("trailing non-whitespace data was encountered")
             }
-- 
2.43.0

