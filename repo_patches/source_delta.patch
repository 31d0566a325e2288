From 3e0cc7fe975cd35facda1050f5930df1c1607300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:19 +0000
Subject: [PATCH 1/5] fix: reject unescaped quote, newline, carriage return and
 tab in character and byte literals

---
 src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 7de0a5c..539fb90 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -586,6 +586,8 @@ fn byte(input: Cursor) -> Result<Cursor, Reject> {
             Some(b'n' | b'r' | b't' | b'\\' | b'0' | b'\'' | b'"') => true,
             _ => false,
         },
+        // These are only allowed in escaped form.
+        Some(b'\'' | b'\n' | b'\r' | b'\t') => false,
         b => b.is_some(),
     };
     if !ok {
@@ -609,6 +611,8 @@ fn character(input: Cursor) -> Result<Cursor, Reject> {
             Some('n' | 'r' | 't' | '\\' | '0' | '\'' | '"') => true,
             _ => false,
         },
+        // These are only allowed in escaped form.
+        Some('\'' | '\n' | '\r' | '\t') => false,
         ch => ch.is_some(),
     };
     if !ok {
-- 
2.43.0


From c92055b5f29a67ab08efd17c22d6d1a28fa0c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:39 +0000
Subject: [PATCH 2/5] fix: punctuation directly before a character literal is
 not joint

---
 src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 539fb90..f0a3cfb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -884,6 +884,8 @@ fn punct(input: Cursor) -> PResult<Punct> {
         }
     } else {
         let kind = match punct_char(rest) {
+            // The quote that begins a character literal is not a punct.
+            Ok((_, '\'')) if character(rest).is_ok() => Spacing::Alone,
             Ok(_) => Spacing::Joint,
             Err(Reject) => Spacing::Alone,
         };
-- 
2.43.0


From bff64d5e55d5c437e8ddd34f4cdf69621440285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:58 +0000
Subject: [PATCH 3/5] fix: do not read a lifetime's name as the prefix of a
 following string literal

---
 src/parse.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index f0a3cfb..50fa79e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -243,8 +243,26 @@ pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
                 #[cfg(span_locations)]
                 hi: rest.off,
             }));
+            let lifetime = matches!(&tt, TokenTree::Punct(punct) if punct.as_char() == '\'');
             tokens.push_token_from_parser(tt);
             input = rest;
+
+            if lifetime {
+                // The name of a lifetime is never the prefix of a literal, even
+                // if a quote comes right after it as in `'r"..."`.
+                let (rest, mut ident) = match ident_any(input) {
+                    Ok((rest, ident)) => (rest, ident),
+                    Err(Reject) => return Err(lex_error(input)),
+                };
+                ident.set_span(crate::Span::_new_fallback(Span {
+                    #[cfg(span_locations)]
+                    lo: input.off,
+                    #[cfg(span_locations)]
+                    hi: rest.off,
+                }));
+                tokens.push_token_from_parser(TokenTree::Ident(ident));
+                input = rest;
+            }
         }
     }
 }
-- 
2.43.0


From e8dbef579f056e455edb0cf4c1d202bb3502b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 4/5] fix: decode string literals containing CRLF line endings
 to the value Rust gives them

---
 src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f590f9b..66e5af0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1307,10 +1307,17 @@ impl Literal {
         self.inner.subspan(range).map(Span::_new)
     }
 
+    // The value of a literal does not depend on the line endings of the source
+    // file; Rust takes \r\n as \n everywhere.
+    #[cfg(procmacro2_semver_exempt)]
+    fn normalized_repr(&self) -> String {
+        self.to_string().replace("\r\n", "\n")
+    }
+
     /// Returns the unescaped string value if this is a string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn str_value(&self) -> Result<String, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = self.normalized_repr();
 
         if repr.starts_with('"') && repr[1..].ends_with('"') {
             let quoted = &repr[1..repr.len() - 1];
@@ -1343,7 +1350,7 @@ impl Literal {
     /// a c-string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn cstr_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = self.normalized_repr();
 
         if repr.starts_with("c\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
@@ -1384,7 +1391,7 @@ impl Literal {
     /// Returns the unescaped string value if this is a byte string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn byte_str_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = self.normalized_repr();
 
         if repr.starts_with("b\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
-- 
2.43.0


From 3761746617a54732b570436d848aea7c1dcdc695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 5/5] fix: Literal::subspan takes a range of bytes, not chars

---
 src/fallback.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/fallback.rs b/src/fallback.rs
index 61dc21d..abf56f1 100644
--- a/src/fallback.rs
+++ b/src/fallback.rs
@@ -1165,33 +1165,25 @@ impl Literal {
         {
             use core::ops::Bound;
 
-            let lo = match range.start_bound() {
-                Bound::Included(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?
-                }
-                Bound::Excluded(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?.checked_add(1)?
-                }
-                Bound::Unbounded => self.span.lo,
+            let source_text = self.span.source_text().unwrap_or_default();
+
+            let start = match range.start_bound() {
+                Bound::Included(start) => *start,
+                Bound::Excluded(start) => start.checked_add(1)?,
+                Bound::Unbounded => 0,
             };
-            let hi = match range.end_bound() {
-                Bound::Included(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?.checked_add(1)?
-                }
-                Bound::Excluded(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?
-                }
-                Bound::Unbounded => self.span.hi,
+            let end = match range.end_bound() {
+                Bound::Included(end) => end.checked_add(1)?,
+                Bound::Excluded(end) => *end,
+                Bound::Unbounded => source_text.len(),
             };
-            if lo <= hi && hi <= self.span.hi {
-                Some(Span { lo, hi })
-            } else {
-                None
-            }
+
+            // The range counts bytes, whereas our spans count chars.
+            let before = source_text.get(..start)?;
+            let within = source_text.get(start..end)?;
+            let lo = self.span.lo + before.chars().count() as u32;
+            let hi = lo + within.chars().count() as u32;
+            Some(Span { lo, hi })
         }
     }
 }
-- 
2.43.0

