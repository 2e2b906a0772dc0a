From 12643292ede85e1aca072a3c78202d674dd0786f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 1/5] fix: decode surrogate pairs beyond U+1FFFF correctly

The base 0x10000 was combined with a bitwise or, which loses bit 16 of the
offset for every pair whose high surrogate is an odd multiple of 0x40.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..af9c349 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From 4bd9e92c337b1a7b01e03104f0d3616976cb9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 2/5] fix: write unicode escapes with valid hexadecimal digits
 in order

AsJson emitted the nibbles least significant first and offset the digits
above nine by ten, so U+0001 became \u1000 and U+000E became \uk000.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index af9c349..13224b2 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8 & 0xF;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From a6354517a86c6c9bb4863df06b6cf80481f5c244 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 3/5] fix: count two bytes for U+0080..=U+00FF in raw strings

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 13224b2..ed816ce 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From b88055290781914b4df5ba94589af8ceab92cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 4/5] fix: compare raw and parsed strings by their decoded
 contents

The encoded lengths of two equal strings can differ, because the same
character has several JSON escapes. Comparing them made
JsonString::from("\n") differ from the parsed "\u000a".
---
 src/string.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index ed816ce..c2736e6 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -253,20 +253,8 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
                 }
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
-            (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
-                    self == b.as_ref()
-                } else {
-                    false
-                }
-            }
-            (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
-                    other == a.as_ref()
-                } else {
-                    false
-                }
-            }
+            (StringContents::Json(_), StringContents::Raw(b)) => self == b.as_ref(),
+            (StringContents::Raw(a), _) => other == a.as_ref(),
         }
     }
 }
-- 
2.43.0


From 4e93e1f16fe223fd610bfc158a20c1d112e26b7b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 5/5] fix: do not promise too small an upper bound in
 AsJson::size_hint

---
 src/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index c2736e6..4dfe593 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -875,7 +875,12 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        match &self.state {
+            EscapeState::AlreadyEscaped => (lower, upper),
+            // Escaping can yield more characters than remain in the source.
+            _ => (lower, None),
+        }
     }
 }
 
-- 
2.43.0

