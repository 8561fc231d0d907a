From 71b957d347b03028b1e2e7eca4bac0c3cdba72dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 01/37] fix: tokenize iteratively so that long documents do not
 overflow the stack

---
 .../src/angle_bracket_close.rs                |  5 ++--
 .../brack-tokenizer/src/angle_bracket_open.rs |  5 ++--
 crates/brack-tokenizer/src/backslash.rs       |  5 ++--
 crates/brack-tokenizer/src/comma.rs           |  5 ++--
 .../src/curly_bracket_close.rs                |  5 ++--
 .../brack-tokenizer/src/curly_bracket_open.rs |  5 ++--
 crates/brack-tokenizer/src/dispatch.rs        | 24 +++++++++++++++----
 crates/brack-tokenizer/src/dot.rs             |  5 ++--
 crates/brack-tokenizer/src/identifier.rs      |  5 ++--
 crates/brack-tokenizer/src/module.rs          |  5 ++--
 crates/brack-tokenizer/src/newline.rs         |  5 ++--
 .../src/square_bracket_close.rs               |  5 ++--
 .../src/square_bracket_open.rs                |  5 ++--
 crates/brack-tokenizer/src/text.rs            |  5 ++--
 crates/brack-tokenizer/src/whitespace.rs      |  5 ++--
 15 files changed, 48 insertions(+), 46 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..f4e499a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -41,5 +40,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..4b16281 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -10,6 +10,21 @@ use crate::{
 use anyhow::Result;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t.clone();
+    loop {
+        match step(&t)? {
+            Step::Continue(next) => t = next,
+            Step::Done(tokens) => return Ok(tokens),
+        }
+    }
+}
+
+enum Step {
+    Continue(Tokenizer),
+    Done(Vec<Token>),
+}
+
+fn step(t: &Tokenizer) -> Result<Step> {
     let s = t
         .untreated
         .clone()
@@ -45,7 +60,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 character: column,
             },
         }));
-        return Ok(tokens);
+        return Ok(Step::Done(tokens));
     }
 
     let (head2, _) = separate(&tail);
@@ -63,7 +78,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         .looking_for_identifier
         .ok_or_else(|| anyhow::anyhow!("`t.looking_for_identifier` is not set"))?;
     let nested = (angle_c + curly_c + square_c) > 0;
-    match (&head[..], &head2[..]) {
+    let next = match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
@@ -92,7 +107,8 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
-    }
+    }?;
+    Ok(Step::Continue(next))
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From c1c5b4a3d644281cc96be9584a74c6755a9e261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 02/37] fix: a NUL character in a document is text, not the end
 of the document

---
 crates/brack-tokenizer/src/dispatch.rs |  4 ++--
 crates/brack-tokenizer/src/utils.rs    | 15 ++++-----------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 4b16281..11a892c 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -39,7 +39,7 @@ fn step(t: &Tokenizer) -> Result<Step> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if head.is_empty() {
         let mut tokens = t
             .tokens
             .clone()
@@ -95,7 +95,7 @@ fn step(t: &Tokenizer) -> Result<Step> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "") => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index ecfe141..d2910f0 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,15 +1,8 @@
 use unicode_segmentation::UnicodeSegmentation;
 
+/// Splits off the first grapheme. The head is empty only at the end of the input.
 pub fn separate(s: &str) -> (String, String) {
-    let graphemes = s.graphemes(true);
-    match graphemes.count() {
-        0 => ('\0'.to_string(), String::new()),
-        1 => (s.graphemes(true).next().unwrap().to_string(), String::new()),
-        _ => {
-            let mut graphemes = s.graphemes(true);
-            let head = graphemes.next().unwrap().to_string();
-            let tail = graphemes.collect::<String>();
-            (head, tail)
-        }
-    }
+    let mut graphemes = s.graphemes(true);
+    let head = graphemes.next().unwrap_or_default().to_string();
+    (head, graphemes.as_str().to_string())
 }
-- 
2.43.0


From 9e2247293d28934c35fb560b93559c96f9224d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 03/37] fix: treat CRLF line endings as newlines

---
 crates/brack-tokenizer/src/tokenize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokenize.rs b/crates/brack-tokenizer/src/tokenize.rs
index 5246304..ac745cb 100644
--- a/crates/brack-tokenizer/src/tokenize.rs
+++ b/crates/brack-tokenizer/src/tokenize.rs
@@ -18,7 +18,7 @@ pub fn tokenize_str(text: &str) -> Result<Vec<Token>> {
         pool: Some(String::new()),
         token_start_line: Some(0),
         token_start_column: Some(0),
-        untreated: Some(text.to_string()),
+        untreated: Some(text.replace("\r\n", "\n")),
         curly_nest_count: Some(0),
         square_nest_count: Some(0),
         angle_nest_count: Some(0),
-- 
2.43.0


From b155eb5ed22c4b04fb82b5ab5cbb43a5ce2605de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 04/37] fix: a stray closing bracket must not make the nesting
 depth negative

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/square_bracket_close.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..7aca276 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..a1e5260 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..424d5e9 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From 52c6bb2bb72d17ce9c9fcbfe17f03c26817923f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 05/37] fix: brackets, spaces and newlines before a closing
 bracket are not identifiers

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 1 +
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 1 +
 crates/brack-tokenizer/src/dispatch.rs             | 6 +++---
 crates/brack-tokenizer/src/square_bracket_close.rs | 1 +
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 7aca276..0d0480a 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         angle_nest_count: Some((angle_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index a1e5260..1e98d58 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         curly_nest_count: Some((curly_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 11a892c..e9e4325 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -80,9 +80,6 @@ fn step(t: &Tokenizer) -> Result<Step> {
     let nested = (angle_c + curly_c + square_c) > 0;
     let next = match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -93,6 +90,9 @@ fn step(t: &Tokenizer) -> Result<Step> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "") => text::tokenize(t),
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 424d5e9..a8d6189 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         square_nest_count: Some((square_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From 302b05e23d046d2b20b848d46281b92ad6b85c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/37] fix: escaped brackets, dots and commas are literal text
 wherever they occur

---
 crates/brack-tokenizer/src/backslash.rs | 36 +++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index f4e499a..8f03352 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -33,9 +33,41 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // An escaped special character stands for itself, so it must not affect the nesting.
+    let (escaped, rest) = separate(&tail);
+    let location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let escaped = match &escaped[..] {
+        "\\" => Some(Token::BackSlash(location)),
+        "<" => Some(Token::AngleBracketOpen(location)),
+        ">" => Some(Token::AngleBracketClose(location)),
+        "{" => Some(Token::CurlyBracketOpen(location)),
+        "}" => Some(Token::CurlyBracketClose(location)),
+        "[" => Some(Token::SquareBracketOpen(location)),
+        "]" => Some(Token::SquareBracketClose(location)),
+        "." => Some(Token::Dot(location)),
+        "," => Some(Token::Comma(location)),
+        _ => None,
+    };
+    let (column, tail) = match escaped {
+        Some(token) => {
+            tokens.push(token);
+            (column + 2, rest)
+        }
+        None => (column + 1, tail),
+    };
+
     let t2 = Tokenizer {
-        column: Some(column + 1),
-        token_start_column: Some(column + 1),
+        column: Some(column),
+        token_start_column: Some(column),
         untreated: Some(tail),
         tokens: Some(tokens),
         ..Default::default()
-- 
2.43.0


From e8e86a5de7eb1a00a4e324e5625ea0f9aef11778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/37] fix: compare end columns with end columns when merging
 locations

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From e1b63aaaba17e48f3693b58d3192e5e920f13827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 08/37] fix: include the escaped character in the location of
 an escape

---
 crates/brack-parser/src/escaped.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..ac12d4f 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,5 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
+use brack_tokenizer::tokens::merge_location;
 use brack_tokenizer::tokens::Token;
 use uuid::Uuid;
 
@@ -62,7 +63,9 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location: children.iter().fold(location.clone(), |location, child| {
+                                merge_location(&location, &child.location())
+                            }),
                             children: children.clone(),
                         }),
                         tokens,
-- 
2.43.0


From f0bbd27cc4d56aa086cc2bd0f09339d7abab7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 09/37] fix: locate parent nodes from their children, not from
 the start of the document

---
 crates/brack-parser/src/cst.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..6ac867e 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -149,6 +149,7 @@ impl CST {
             | CST::Angle(node)
             | CST::Square(node)
             | CST::Curly(node) => {
+                let is_first_child = node.children.is_empty();
                 node.children.push(cst.clone());
                 let location_children = match cst {
                     CST::Document(node)
@@ -174,7 +175,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if is_first_child {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             _ => panic!("This node does not have children"),
         }
-- 
2.43.0


From d9681b7fa1b463e6050bfca9b9a3662cd7449bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 10/37] fix: report closing brackets that were never opened

---
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 445713d5d52add582de87b1680030a9fbfe9918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 11/37] fix: do not panic on punctuation left over by an
 unclosed bracket

---
 crates/brack-transformer/src/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..5207ab4 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -7,6 +7,7 @@ use crate::{
     },
     error::TransformError,
     simplify,
+    utils::remove_elements_not_included_ast,
 };
 
 pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
@@ -30,7 +31,7 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             }
             CST::Expr(node) => {
                 let mut children = vec![];
-                for child in node.children.clone() {
+                for child in remove_elements_not_included_ast(&node.children) {
                     children.push(aux(&child));
                 }
                 new_expr(children, node.location.clone())
-- 
2.43.0


From 48e0962cc95025029a56b3539d04676558ba7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 12/37] fix: replace macros with their expansion and pass other
 nodes through unchanged

---
 crates/brack-expander/src/expand.rs | 34 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..d733ee4 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -30,26 +30,24 @@ fn expand_angle(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
 }
 
 fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-    let mut children = vec![];
-    match ast {
-        AST::Text(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Module(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Ident(_) => {
-            return Ok(ast.clone());
-        }
-        _ => {}
-    }
-    for child in ast.children() {
-        match child {
-            AST::Angle(_) => children.push(expand_angle(overall_ast, child, plugins)?),
-            _ => children.push(expand_other(overall_ast, child, plugins)?),
+    let mut expanded = ast.clone();
+    match &mut expanded {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => {
+            for child in node.children.iter_mut() {
+                *child = match child {
+                    AST::Angle(_) => expand_angle(overall_ast, child, plugins)?,
+                    _ => expand_other(overall_ast, child, plugins)?,
+                };
+            }
         }
+        AST::Text(_) | AST::Module(_) | AST::Ident(_) | AST::Invalid(_) | AST::Ignored(_) => (),
     }
-    Ok(ast.clone())
+    Ok(expanded)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From 873a053232cbc58f6dc72236acb162d4067cb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 13/37] fix: do not panic when a call has fewer arguments than
 the command has parameters

---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 crates/brack-plugin/src/types.rs   | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..1f21e9b 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires argument {}", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..df9b32d 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires argument {}", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..3a209cb 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -18,7 +18,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = usize::saturating_add(max, 1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = usize::saturating_add(max, 1);
             }
         }
     }
-- 
2.43.0


From 4920dee257d9169557a719f445621a1314280ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 14/37] fix: report an unexpected dot once, not twice

---
 crates/brack-transformer/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..8d855bd 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -87,10 +87,8 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            // reported by `check_unexpected_dot`
+            CST::Dot(_) => continue,
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = false;
-- 
2.43.0


From a061f9049c0dcdc4bfb09a46efa7b786a5b007a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 15/37] fix: keep the spaces between the words of an argument

---
 crates/brack-transformer/src/utils.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 8d855bd..6615c31 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{new_expr, CST};
+use brack_parser::cst::{new_expr, new_text, CST};
 
 use crate::error::TransformError;
 
@@ -65,23 +65,31 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
+    let mut previous_comma = None;
+    let mut whitespaces: Vec<CST> = vec![];
     for i in 4..csts.len() {
         match csts[i].clone() {
+            // Whitespaces belong to an argument only if they are surrounded by its contents.
+            CST::Whitespace(leaf) => {
+                if !expr.children().is_empty() {
+                    whitespaces.push(new_text(" ".to_string(), leaf.location));
+                }
+            }
             CST::Comma(_) => {
+                whitespaces.clear();
                 if expr.children().is_empty() {
                     errors.push(TransformError::UnexpectedComma(csts[i].location()));
                     continue;
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                previous_comma = Some(csts[i].location());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(location) = previous_comma {
+                    errors.push(TransformError::UnexpectedComma(location));
                 }
                 expr = new_expr();
                 new_csts.push(csts[i].clone());
@@ -90,8 +98,11 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
             // reported by `check_unexpected_dot`
             CST::Dot(_) => continue,
             _ => {
+                for whitespace in whitespaces.drain(..) {
+                    expr.add(whitespace);
+                }
                 expr.add(csts[i].clone());
-                previous_comma = false;
+                previous_comma = None;
             }
         }
     }
@@ -111,11 +122,13 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Whitespaces in the arguments (i.e. after the identifier) are left to `check_valid_arguments`.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
+            CST::Newline(_) => (),
+            CST::Whitespace(_) if result.len() < 4 => (),
             _ => result.push(cst.clone()),
         }
     }
-- 
2.43.0


From e4882c51e395e8c2bda1f0c0dd2979827027cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 16/37] fix: create the plugins directory before downloading
 into it

---
 crates/brack-project-manager/src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..878ffbd 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -109,6 +109,9 @@ impl Project {
             let results = join_all(tasks).await;
             for result in results {
                 let (name, path, bytes, flag) = result??;
+                if let Some(dir) = path.parent() {
+                    std::fs::create_dir_all(dir)?;
+                }
                 std::fs::write(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
-- 
2.43.0


From e8eae5004a98943c5f40631d9d9286ebda2c9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 17/37] fix: never leave a partially written plugin in the
 plugin cache

---
 crates/brack-project-manager/src/project.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 878ffbd..d04a93b 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -112,7 +112,14 @@ impl Project {
                 if let Some(dir) = path.parent() {
                     std::fs::create_dir_all(dir)?;
                 }
-                std::fs::write(&path, &bytes)?;
+                // A file at `path` is taken for a complete plugin, so it must never be a partial one.
+                let partial_path = path.with_extension(format!("{}.part", std::process::id()));
+                if let Err(error) = std::fs::write(&partial_path, &bytes)
+                    .and_then(|_| std::fs::rename(&partial_path, &path))
+                {
+                    let _ = std::fs::remove_file(&partial_path);
+                    return Err(error.into());
+                }
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
-- 
2.43.0


From be8d378aae4f444dfddad3fd8b3d526629cb1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 18/37] fix: do not reuse a plugin that was downloaded for
 another backend

---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..947ba85 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?}", (self, backend)));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index d04a93b..1de22a3 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -45,8 +45,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = PathBuf::from(&format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From 0e13420de83f21415eb20735c590b07a6339716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 19/37] fix: keep downloaded plugins in the project, not in the
 working directory

---
 crates/brack-project-manager/src/project.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 1de22a3..5c906ac 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -35,8 +35,8 @@ impl Project {
     }
 
     pub fn clear_plugins(&mut self) -> Result<()> {
-        std::fs::remove_dir_all("plugins")?;
-        std::fs::create_dir("plugins")?;
+        std::fs::remove_dir_all(self.root.join("plugins"))?;
+        std::fs::create_dir(self.root.join("plugins"))?;
         self.plugins_metadata = Default::default();
         Ok(())
     }
@@ -45,7 +45,7 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path = PathBuf::from(&format!(
+                let path = self.root.join(format!(
                     "plugins/{}_{}.wasm",
                     name,
                     plugin.hash_sha256(&self.config.document.backend)
-- 
2.43.0


From 5ba1e0a5906040b2e1bbea9472fe6984cf1b7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 20/37] fix: do not truncate Brack.toml when adding a plugin
 fails to save it

---
 crates/brack-project-manager/src/plugin.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 947ba85..88ec70c 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -278,7 +278,11 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    std::fs::write("Brack.toml.part", toml)
+        .and_then(|_| std::fs::rename("Brack.toml.part", "Brack.toml"))
+        .inspect_err(|_| {
+            let _ = std::fs::remove_file("Brack.toml.part");
+        })?;
 
     Ok(())
 }
-- 
2.43.0


From 4d158ac7f84574c5a7d7b33093679d5c90675a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 21/37] fix: quote the project name in a new Brack.toml

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..228eda5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,14 +131,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            toml::Value::from(name)
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From eabbe695f3dca47f178147a43a6b013ee8056e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 22/37] fix: frame language server messages by bytes and handle
 every message received

---
 crates/brack-language-server/src/server.rs | 62 ++++++++++------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..530e551 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,10 +1,8 @@
-use std::str::from_utf8;
-
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -134,39 +132,37 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
-                }
-            }
-
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
-
-            if buffer.len() < total_length {
-                continue;
+            while let Some(message) = take_message(&mut buffer) {
+                let msg: Value = from_slice(&message)?;
+                self.dispatch(msg).await?;
             }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
     }
 }
+
+/// Takes the first message off the buffer if all of it has been received.
+fn take_message(buffer: &mut Vec<u8>) -> Option<Vec<u8>> {
+    loop {
+        let header_length = buffer.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
+        let header = String::from_utf8_lossy(&buffer[..header_length]).to_string();
+        let content_length = header
+            .split("\r\n")
+            .filter_map(|line| line.split_once(':'))
+            .filter(|(key, _)| key.trim().eq_ignore_ascii_case("Content-Length"))
+            .find_map(|(_, value)| value.trim().parse::<usize>().ok());
+        let Some(content_length) = content_length else {
+            // There is no body to find after such a header.
+            buffer.drain(..header_length);
+            continue;
+        };
+        let total_length = header_length.saturating_add(content_length);
+        if buffer.len() < total_length {
+            return None;
+        }
+        let message = buffer[header_length..total_length].to_vec();
+        buffer.drain(..total_length);
+        return Some(message);
+    }
+}
-- 
2.43.0


From 915f3243663915787bb3bf6c5e97145b2a59d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 23/37] fix: answer an invalid JSON message instead of
 terminating the language server

---
 crates/brack-language-server/src/server.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 530e551..65ee7cc 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -72,7 +72,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -133,8 +132,10 @@ impl Server {
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
             while let Some(message) = take_message(&mut buffer) {
-                let msg: Value = from_slice(&message)?;
-                self.dispatch(msg).await?;
+                match from_slice(&message) {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
+                }
             }
         }
 
-- 
2.43.0


From 50732503430a0abac8353a72f4fcd4b46d851934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 24/37] fix: a message that cannot be handled must not
 terminate the language server

---
 crates/brack-language-server/src/server.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 65ee7cc..27df5b5 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -110,9 +110,18 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+                Ok(()) => Ok(()),
+                Err(error) => {
+                    self.send_error_response(Some(id), -32602, &error.to_string())
+                        .await
+                }
+            },
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => match self.handle_notification(&msg, method).await {
+                Ok(()) => Ok(()),
+                Err(error) => self.log_message(&format!("{}: {}", method, error)).await,
+            },
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 2555cd4242f5396b4e4bce8dddbbd231fa05b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 25/37] fix: answer requests that have no result with null

---
 crates/brack-language-server/src/request.rs | 24 +++++++--------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..af86393 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -106,14 +106,10 @@ impl Server {
             "textDocument/semanticTokens/full" => {
                 let params = SemanticTokensParams::deserialize(msg["params"].clone())?;
                 match self.handle_semantic_tokens_full(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
                             .await
@@ -123,14 +119,10 @@ impl Server {
             "textDocument/completion" => {
                 let params = CompletionParams::deserialize(msg["params"].clone())?;
                 match self.handle_completion(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
                             .await
-- 
2.43.0


From 06e5786015fca585b80fabeaf06966634b49d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 26/37] fix: publish diagnostics under the URI of the document

---
 crates/brack-language-server/src/notification/did_save.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..e712c09 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -29,7 +29,9 @@ impl Server {
 
         if errors.is_empty() {
             let diagnostics: Vec<Diagnostic> = vec![];
-            return self.send_publish_diagnostics(uri, &diagnostics).await;
+            return self
+                .send_publish_diagnostics(param.text_document.uri.as_str(), &diagnostics)
+                .await;
         }
 
         let mut diagnostics = vec![];
@@ -52,6 +54,7 @@ impl Server {
             };
             diagnostics.push(diagnostic);
         }
-        self.send_publish_diagnostics(uri, &diagnostics).await
+        self.send_publish_diagnostics(param.text_document.uri.as_str(), &diagnostics)
+            .await
     }
 }
-- 
2.43.0


From 86099fa165248b50dc709c792680cc8196a2f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 27/37] fix: complete macros after an opening angle bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From 371636282c799e22581d03011cbf7350b2bef8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 28/37] fix: accept string ids in language server requests

---
 crates/brack-language-server/src/request.rs  |  2 +-
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  5 +++--
 crates/brack-language-server/src/server.rs   | 14 ++++++++++----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index af86393..1eb0941 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: Value,
         method: &str,
     ) -> Result<()> {
         match method {
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..33a89bc 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..587549c 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,14 +1,15 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
             id,
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 27df5b5..086b650 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -46,7 +46,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -67,7 +67,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -107,10 +111,12 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id")
+                .filter(|id| id.is_number() || id.is_string())
+                .cloned(),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+            (Some(id), Some(method)) => match self.handle_request(&msg, id.clone(), method).await {
                 Ok(()) => Ok(()),
                 Err(error) => {
                     self.send_error_response(Some(id), -32602, &error.to_string())
-- 
2.43.0


From 77638553a1c733e17a76c14ffb7a22ff15ac04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 29/37] fix: a carriage return before a CRLF line ending must
 not hide it

---
 crates/brack-tokenizer/src/tokenize.rs | 2 +-
 crates/brack-tokenizer/src/utils.rs    | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/tokenize.rs b/crates/brack-tokenizer/src/tokenize.rs
index ac745cb..5246304 100644
--- a/crates/brack-tokenizer/src/tokenize.rs
+++ b/crates/brack-tokenizer/src/tokenize.rs
@@ -18,7 +18,7 @@ pub fn tokenize_str(text: &str) -> Result<Vec<Token>> {
         pool: Some(String::new()),
         token_start_line: Some(0),
         token_start_column: Some(0),
-        untreated: Some(text.replace("\r\n", "\n")),
+        untreated: Some(text.to_string()),
         curly_nest_count: Some(0),
         square_nest_count: Some(0),
         angle_nest_count: Some(0),
diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index d2910f0..ae9b6c2 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,8 +1,12 @@
 use unicode_segmentation::UnicodeSegmentation;
 
 /// Splits off the first grapheme. The head is empty only at the end of the input.
+/// A CRLF line ending is one grapheme and is read as a newline.
 pub fn separate(s: &str) -> (String, String) {
     let mut graphemes = s.graphemes(true);
-    let head = graphemes.next().unwrap_or_default().to_string();
-    (head, graphemes.as_str().to_string())
+    let head = match graphemes.next().unwrap_or_default() {
+        "\r\n" => "\n",
+        head => head,
+    };
+    (head.to_string(), graphemes.as_str().to_string())
 }
-- 
2.43.0


From 26f9344cde65ed6f3f01781a49b32155fb85628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 30/37] fix: compile takes a file for a plugin by its own name,
 not by part of its path

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 228eda5..f6295c0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,15 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>[[:alpha:]]+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
+        let file_name = entry.file_name();
         let capture = pattern.captures(
-            path.to_str()
+            file_name
+                .to_str()
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From ec3ec257bd69fd30ea1f9607cc9cfba651dd41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 31/37] fix: add rejects a malformed plugin argument instead of
 guessing

---
 crates/brack-project-manager/src/plugin.rs | 35 ++++++++++------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 88ec70c..a80d8c2 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -188,28 +188,25 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         return Err(anyhow::anyhow!("Brack.toml is not found."));
     }
 
-    let repository_type = schema
-        .split(':')
-        .next()
+    // schema is TYPE:OWNER/REPO@VERSION
+    let (repository_type, rest) = schema
+        .split_once(':')
         .ok_or_else(|| anyhow::anyhow!("Repository type is not found."))?;
-    let owner = schema
-        .split('/')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?
-        .split(':')
-        .nth(1)
+    let (owner, rest) = rest
+        .split_once('/')
         .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?;
-    let repo = schema
-        .split('/')
-        .nth(1)
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?
-        .split('@')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?;
-    let version = schema
-        .split('@')
-        .nth(1)
+    let (repo, version) = rest
+        .split_once('@')
         .ok_or_else(|| anyhow::anyhow!("Version is not found."))?;
+    if owner.is_empty() || owner.contains([':', '@']) {
+        return Err(anyhow::anyhow!("Owner is not found."));
+    }
+    if repo.is_empty() || repo.contains(['/', ':']) {
+        return Err(anyhow::anyhow!("Repository is not found."));
+    }
+    if version.is_empty() {
+        return Err(anyhow::anyhow!("Version is not found."));
+    }
     let url = match repository_type {
         "github" => format!("https://github.com/{}/{}", owner, repo),
         _ => {
-- 
2.43.0


From 7c289ecd88c5b31e18240cf7908d9f73a1127cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 32/37] fix: a project without documents builds

---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 5c906ac..0ac0496 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -160,6 +160,7 @@ impl Project {
             }
         }
 
+        std::fs::create_dir_all("out")?;
         println!("Build succeeded.");
         for out in std::fs::read_dir("out")? {
             let out = out?;
-- 
2.43.0


From 5c62b958c0c4b160ffbd1b01f36dd252604461de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 33/37] fix: new leaves nothing behind when the project cannot
 be created

---
 src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index f6295c0..eb78d1e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -127,6 +127,12 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
 
 fn new_project(name: &str) -> Result<()> {
     std::fs::create_dir(name)?;
+    fill_project(name).inspect_err(|_| {
+        let _ = std::fs::remove_dir_all(name);
+    })
+}
+
+fn fill_project(name: &str) -> Result<()> {
     std::fs::create_dir(format!("{}/docs", name))?;
     std::fs::write(format!("{}/docs/main.[]", name), "")?;
     std::fs::write(
-- 
2.43.0


From caff5e250c496ac2a149ec4ee1bdfec99ddff45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 34/37] fix: completion requested without a context has no
 trigger character

---
 crates/brack-language-server/src/request/completion.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 5888ccf..62cbe71 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -45,10 +45,7 @@ impl Server {
             plugin_vec.push(plugin);
         }
         let plugins = Plugins::new(plugin_vec)?;
-        let start = params
-            .context
-            .ok_or_else(|| anyhow::anyhow!("No context"))?
-            .trigger_character;
+        let start = params.context.and_then(|context| context.trigger_character);
         if start.is_none() {
             return Ok(None);
         }
-- 
2.43.0


From a603070f47fc3260c25c2a6f620728cf3c65033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 35/37] fix: print nodes without a value in error messages
 instead of panicking

---
 crates/brack-transformer/src/ast.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 5da4323..2d22671 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -194,11 +194,18 @@ impl AST {
                 }
                 Ok(())
             }
-            AST::Ident(node) => writeln!(f, "{}Ident: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Ident(node) => {
+                let value = node.value.as_deref().unwrap_or_default();
+                writeln!(f, "{}Ident: {}", ident_str, value)
+            }
             AST::Module(node) => {
-                writeln!(f, "{}Module: {}", ident_str, node.value.as_ref().unwrap())
+                let value = node.value.as_deref().unwrap_or_default();
+                writeln!(f, "{}Module: {}", ident_str, value)
+            }
+            AST::Text(node) => {
+                let value = node.value.as_deref().unwrap_or_default();
+                writeln!(f, "{}Text: {}", ident_str, value)
             }
-            AST::Text(node) => writeln!(f, "{}Text: {}", ident_str, node.value.as_ref().unwrap()),
             AST::Invalid(_) => writeln!(f, "{}Invalid", ident_str),
             AST::Ignored(_) => writeln!(f, "{}Ignored", ident_str),
         }
-- 
2.43.0


From 804ecc926d6028a52c033eac9e6b2c458cdd0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 36/37] fix: give the new configuration a temporary name of its
 own process

Two brack add at the same time wrote to and renamed the same Brack.toml.part, so that one
of them failed or Brack.toml was left torn.
---
 crates/brack-project-manager/src/plugin.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index a80d8c2..d31557c 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -275,10 +275,11 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml.part", toml)
-        .and_then(|_| std::fs::rename("Brack.toml.part", "Brack.toml"))
+    let partial_path = format!("Brack.toml.{}.part", std::process::id());
+    std::fs::write(&partial_path, toml)
+        .and_then(|_| std::fs::rename(&partial_path, "Brack.toml"))
         .inspect_err(|_| {
-            let _ = std::fs::remove_file("Brack.toml.part");
+            let _ = std::fs::remove_file(&partial_path);
         })?;
 
     Ok(())
-- 
2.43.0


From 3fd261576ec38df8a5e0038ae92f86281368e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:31 +0000
Subject: [PATCH 37/37] fix: escape names in completion snippets

The text a completion inserts is a snippet, in which $, } and \ have a
meaning; a module or command name that contains one was inserted as
something else.
---
 .../src/request/completion.rs                      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 62cbe71..64d475d 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -4,16 +4,24 @@ use lsp_types::{CompletionItem, CompletionParams, CompletionResponse, InsertText
 
 use crate::server::Server;
 
+/// Escapes the characters that have a meaning in a snippet.
+fn escape_snippet(text: &str) -> String {
+    text.replace('\\', "\\\\")
+        .replace('$', "\\$")
+        .replace('}', "\\}")
+}
+
 fn build_completion_item(
     module_name: &str,
     name: &str,
     typ: &Type,
     command_metadata: &Metadata,
 ) -> CompletionItem {
+    let snippet = escape_snippet(&format!("{}.{}", module_name, name));
     let insert_text = Some(match typ {
-        Type::TInline => format!("{}.{} $0]", module_name, name),
-        Type::TBlock => format!("{}.{} $0}}", module_name, name),
-        Type::TAST => format!("{}.{} $0>", module_name, name),
+        Type::TInline => format!("{} $0]", snippet),
+        Type::TBlock => format!("{} $0}}", snippet),
+        Type::TAST => format!("{} $0>", snippet),
         _ => panic!("Invalid type"),
     });
     CompletionItem {
-- 
2.43.0

