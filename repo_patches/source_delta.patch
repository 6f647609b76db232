From 983f5ac09e0c95cfe67b9e6bd7465cc5f9a3277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/35] fix: tokenize with a loop instead of recursing once per
 character

Every character of a document added a stack frame, so documents of a few
thousand characters overflowed the stack, and the whole token list was
cloned for each character.
---
 .../src/angle_bracket_close.rs                | 10 +++---
 .../brack-tokenizer/src/angle_bracket_open.rs | 10 +++---
 crates/brack-tokenizer/src/backslash.rs       | 10 +++---
 crates/brack-tokenizer/src/comma.rs           | 10 +++---
 .../src/curly_bracket_close.rs                | 10 +++---
 .../brack-tokenizer/src/curly_bracket_open.rs | 10 +++---
 crates/brack-tokenizer/src/dispatch.rs        | 33 ++++++++++++++-----
 crates/brack-tokenizer/src/dot.rs             | 10 +++---
 crates/brack-tokenizer/src/identifier.rs      | 10 +++---
 crates/brack-tokenizer/src/module.rs          | 10 +++---
 crates/brack-tokenizer/src/newline.rs         | 10 +++---
 .../src/square_bracket_close.rs               | 10 +++---
 .../src/square_bracket_open.rs                | 10 +++---
 crates/brack-tokenizer/src/text.rs            | 10 +++---
 crates/brack-tokenizer/src/tokenize.rs        |  2 +-
 crates/brack-tokenizer/src/tokenizer.rs       |  8 ++---
 crates/brack-tokenizer/src/utils.rs           | 13 ++------
 crates/brack-tokenizer/src/whitespace.rs      | 10 +++---
 18 files changed, 88 insertions(+), 108 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..dcfc203 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,9 +42,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..0f803fa 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,12 +42,11 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         angle_nest_count: Some(angle_nest_count + 1),
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..ec16998 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,20 +1,19 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -38,8 +37,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
         untreated: Some(tail),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..8d18c85 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -40,8 +39,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..a837f28 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,9 +42,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..8c276ac 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,10 +42,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         curly_nest_count: Some(curly_nest_count + 1),
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..791092e 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -9,7 +9,22 @@ use crate::{
 };
 use anyhow::Result;
 
-pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn dispatch(t: Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t;
+    loop {
+        match step(t)? {
+            Step::Continue(next) => t = next,
+            Step::Done(tokens) => return Ok(tokens),
+        }
+    }
+}
+
+enum Step {
+    Continue(Tokenizer),
+    Done(Vec<Token>),
+}
+
+fn step(t: Tokenizer) -> Result<Step> {
     let s = t
         .untreated
         .clone()
@@ -25,16 +40,15 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     let (head, tail) = separate(&s);
 
     if head == "\0" {
-        let mut tokens = t
-            .tokens
-            .clone()
-            .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
         let line = t
             .line
             .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
         let column = t
             .column
             .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
+        let mut tokens = t
+            .tokens
+            .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
         tokens.push(Token::EOF(Location {
             start: LocationData {
                 line,
@@ -45,7 +59,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 character: column,
             },
         }));
-        return Ok(tokens);
+        return Ok(Step::Done(tokens));
     }
 
     let (head2, _) = separate(&tail);
@@ -63,7 +77,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         .looking_for_identifier
         .ok_or_else(|| anyhow::anyhow!("`t.looking_for_identifier` is not set"))?;
     let nested = (angle_c + curly_c + square_c) > 0;
-    match (&head[..], &head2[..]) {
+    let next = match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
@@ -92,7 +106,8 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
-    }
+    };
+    Ok(Step::Continue(next?))
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..78dbb95 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -40,8 +39,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..9613860 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -18,9 +17,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         .ok_or_else(|| anyhow::anyhow!("`t.pool` is not set"))?;
     pool.push_str(&head);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let token_start_line = t
         .token_start_line
@@ -54,9 +53,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..c6ec27e 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -18,9 +17,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         .ok_or_else(|| anyhow::anyhow!("`t.pool` is not set"))?;
     pool.push_str(&head);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let token_start_line = t
         .token_start_line
@@ -53,8 +52,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..5a325cb 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -18,9 +17,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         .column
         .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
     let (_, tail) = separate(&s);
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
 
     tokens.push(Token::NewLine(Location {
@@ -41,8 +40,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(0),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..72b394c 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,9 +42,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..581aee1 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -43,10 +42,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         square_nest_count: Some(square_nest_count + 1),
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..5c3ce61 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -18,9 +17,9 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         .ok_or_else(|| anyhow::anyhow!("`t.pool` is not set"))?;
     pool.push_str(&head);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let token_start_line = t
         .token_start_line
@@ -53,8 +52,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/tokenize.rs b/crates/brack-tokenizer/src/tokenize.rs
index 5246304..b5df7dd 100644
--- a/crates/brack-tokenizer/src/tokenize.rs
+++ b/crates/brack-tokenizer/src/tokenize.rs
@@ -25,7 +25,7 @@ pub fn tokenize_str(text: &str) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t)
+    dispatch(t)
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/tokenizer.rs b/crates/brack-tokenizer/src/tokenizer.rs
index 53a9912..2444666 100644
--- a/crates/brack-tokenizer/src/tokenizer.rs
+++ b/crates/brack-tokenizer/src/tokenizer.rs
@@ -17,7 +17,7 @@ pub struct Tokenizer {
 }
 
 impl Tokenizer {
-    pub fn merge(&self, other: &Tokenizer) -> Tokenizer {
+    pub fn merge(self, other: &Tokenizer) -> Tokenizer {
         Tokenizer {
             uri: other.uri.clone(),
             line: match other.line {
@@ -38,15 +38,15 @@ impl Tokenizer {
             },
             untreated: match &other.untreated {
                 Some(s) => Some(s.clone()),
-                None => self.untreated.clone(),
+                None => self.untreated,
             },
             pool: match &other.pool {
                 Some(s) => Some(s.clone()),
-                None => self.pool.clone(),
+                None => self.pool,
             },
             tokens: match &other.tokens {
                 Some(s) => Some(s.clone()),
-                None => self.tokens.clone(),
+                None => self.tokens,
             },
             angle_nest_count: match other.angle_nest_count {
                 Some(s) => Some(s),
diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index ecfe141..4c73ac7 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,15 +1,8 @@
 use unicode_segmentation::UnicodeSegmentation;
 
 pub fn separate(s: &str) -> (String, String) {
-    let graphemes = s.graphemes(true);
-    match graphemes.count() {
-        0 => ('\0'.to_string(), String::new()),
-        1 => (s.graphemes(true).next().unwrap().to_string(), String::new()),
-        _ => {
-            let mut graphemes = s.graphemes(true);
-            let head = graphemes.next().unwrap().to_string();
-            let tail = graphemes.collect::<String>();
-            (head, tail)
-        }
+    match s.graphemes(true).next() {
+        None => ('\0'.to_string(), String::new()),
+        Some(head) => (head.to_string(), s[head.len()..].to_string()),
     }
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2586412 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,21 +1,20 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
 
-    let mut tokens = t
+    let tokens = t
         .tokens
-        .clone()
+        .as_mut()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
     let line = t
         .line
@@ -40,8 +39,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From e8dd8d1d68afe951955302ec2972ad96fcd07d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 02/35] fix: do not take a NUL character for the end of the
 document

Everything after a NUL character was silently dropped.
---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 crates/brack-tokenizer/src/utils.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 791092e..f3c94e9 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -39,7 +39,7 @@ fn step(t: Tokenizer) -> Result<Step> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if head.is_empty() {
         let line = t
             .line
             .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
@@ -94,7 +94,7 @@ fn step(t: Tokenizer) -> Result<Step> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "") => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index 4c73ac7..e3fc7e9 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -2,7 +2,7 @@ use unicode_segmentation::UnicodeSegmentation;
 
 pub fn separate(s: &str) -> (String, String) {
     match s.graphemes(true).next() {
-        None => ('\0'.to_string(), String::new()),
+        None => (String::new(), String::new()),
         Some(head) => (head.to_string(), s[head.len()..].to_string()),
     }
 }
-- 
2.43.0


From 149ac1f4041b320ba1f7dd331432c4e6423a0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 03/35] fix: treat CRLF as a line break

A carriage return and line feed form one grapheme, which was not
recognised as a newline.
---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index f3c94e9..7c2430c 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -91,10 +91,10 @@ fn step(t: Tokenizer) -> Result<Step> {
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") | (_, "") => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From 37f360a3cf4b09ce47f62bbd65c21b531b474e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 04/35] fix: keep the command context right around special
 characters

A special character in the head of a command directly before a closing
bracket was read as an identifier (a newline among them, which shifted
the position of everything after it), the search for an identifier went
on after its command was closed, and a stray closing bracket made the
next command look like plain text.
---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/dispatch.rs             | 6 +++---
 crates/brack-tokenizer/src/square_bracket_close.rs | 3 ++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index dcfc203..ecf647a 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -42,7 +42,8 @@ pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index a837f28..0d745d8 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -42,7 +42,8 @@ pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 7c2430c..6e503a5 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -79,9 +79,6 @@ fn step(t: Tokenizer) -> Result<Step> {
     let nested = (angle_c + curly_c + square_c) > 0;
     let next = match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -92,6 +89,9 @@ fn step(t: Tokenizer) -> Result<Step> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) | ("\r\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") | (_, "") => text::tokenize(t),
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 72b394c..af2ec75 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -42,7 +42,8 @@ pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From 0a844707f5eab7bf85d15c940eaeaf3172e6967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 05/35] fix: escaped characters do not affect the command
 context

An escaped bracket opened or closed a command for the tokenizer, so text
after it was split like command arguments (and made the transformer
panic), and outside of commands an escaped dot or comma was rejected.
---
 crates/brack-tokenizer/src/backslash.rs | 33 +++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index ec16998..a06800a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -33,6 +33,39 @@ pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // The escaped character gets its own token here, so that it neither opens
+    // nor closes a command nor separates anything.
+    let (escaped, tail2) = separate(&tail);
+    let escaped_location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let escaped_token = match &escaped[..] {
+        "\\" => Some(Token::BackSlash(escaped_location)),
+        "<" => Some(Token::AngleBracketOpen(escaped_location)),
+        ">" => Some(Token::AngleBracketClose(escaped_location)),
+        "{" => Some(Token::CurlyBracketOpen(escaped_location)),
+        "}" => Some(Token::CurlyBracketClose(escaped_location)),
+        "[" => Some(Token::SquareBracketOpen(escaped_location)),
+        "]" => Some(Token::SquareBracketClose(escaped_location)),
+        "." => Some(Token::Dot(escaped_location)),
+        "," => Some(Token::Comma(escaped_location)),
+        _ => None,
+    };
+    let (column, tail) = match escaped_token {
+        Some(token) => {
+            tokens.push(token);
+            (column + 1, tail2)
+        }
+        None => (column, tail),
+    };
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
-- 
2.43.0


From 8205999b8c9d4cda2fe9740ef690969949e7e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 06/35] fix: read the identifier of a command whose module is a
 macro

In '[<m.c>.name x]' the tokenizer stopped looking for an identifier at
the macro's own one and read 'name' as text.
---
 .../src/angle_bracket_close.rs                | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index ecf647a..e365ee0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -37,14 +37,49 @@ pub fn tokenize(mut t: Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    let looking_for_identifier = is_module(tokens) && separate(&tail).0 == ".";
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
         angle_nest_count: Some((angle_nest_count - 1).max(0)),
-        looking_for_identifier: Some(false),
+        looking_for_identifier: Some(looking_for_identifier),
         ..Default::default()
     };
     Ok(t.merge(&t2))
 }
+
+// A macro directly after an opening bracket stands for the module of a command,
+// whose identifier is still to come.
+fn is_module(tokens: &[Token]) -> bool {
+    let mut nest_count = 0;
+    for (i, token) in tokens.iter().enumerate().rev() {
+        match token {
+            Token::AngleBracketClose(_) if !is_escaped(tokens, i) => nest_count += 1,
+            Token::AngleBracketOpen(_) if !is_escaped(tokens, i) => nest_count -= 1,
+            _ => continue,
+        }
+        if nest_count == 0 {
+            return i > 0
+                && !is_escaped(tokens, i - 1)
+                && matches!(
+                    tokens[i - 1],
+                    Token::AngleBracketOpen(_)
+                        | Token::CurlyBracketOpen(_)
+                        | Token::SquareBracketOpen(_)
+                );
+        }
+    }
+    false
+}
+
+fn is_escaped(tokens: &[Token], index: usize) -> bool {
+    let backslashes = tokens[..index]
+        .iter()
+        .rev()
+        .take_while(|token| matches!(token, Token::BackSlash(_)))
+        .count();
+    backslashes % 2 == 1
+}
-- 
2.43.0


From 1044da614ed530f3557dcfcd3fbd388d41a09767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 07/35] fix: compare columns with columns when merging
 locations

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From e6fab72c59ee945370aaca0011de73dcd961159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 08/35] fix: start a node's span at its first child

New nodes are located at the start of the document and only ever grew,
so every statement and command argument claimed to begin there.
---
 crates/brack-parser/src/cst.rs      | 6 +++++-
 crates/brack-transformer/src/ast.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..3d3be2d 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -174,7 +174,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if node.children.len() == 1 {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             _ => panic!("This node does not have children"),
         }
diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 5da4323..0bb5a39 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -108,7 +108,11 @@ impl AST {
                     | AST::Invalid(leaf)
                     | AST::Ignored(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if node.children.len() == 1 {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             AST::Ident(_) | AST::Module(_) | AST::Text(_) => {
                 panic!("Cannot add child to leaf node");
-- 
2.43.0


From ef648e0c3cc3c997b1bf075aa563ac7a81db3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 09/35] fix: accept documents that start with blank lines

---
 crates/brack-parser/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 923b5d8..5ad279d 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -6,11 +6,16 @@ use crate::{
     eof, newline, stmt,
 };
 
-// (stmt newline newline+)* stmt? newline* EOF
+// newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
     let mut tokens = tokens;
     let mut cst = new_document();
 
+    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {
+        cst.add(cst1);
+        tokens = new_tokens;
+    }
+
     loop {
         let mut csts = vec![];
         let mut tokens1 = tokens;
-- 
2.43.0


From a86a764eea52efe3f87e7ad25d94a979fade2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 10/35] fix: include the escaped character in the span of an
 escape

---
 crates/brack-parser/src/escaped.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..704acfb 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,5 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
+use brack_tokenizer::tokens::merge_location;
 use brack_tokenizer::tokens::Token;
 use uuid::Uuid;
 
@@ -55,6 +56,10 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         }
                         _ => Err(()),
                     };
+                    let location = match &escaped_node {
+                        Ok(node) => merge_location(location, &node.location()),
+                        Err(_) => location.clone(),
+                    };
                     let children = match escaped_node {
                         Ok(node) => vec![node],
                         Err(_) => vec![],
@@ -62,7 +67,7 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location,
                             children: children.clone(),
                         }),
                         tokens,
-- 
2.43.0


From 15d38d2e4dee477f8b2a1fc9aa45939d9385b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/35] fix: do not panic on text after an unclosed nested
 command

---
 crates/brack-transformer/src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..760a449 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,10 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            // Separators outside of a closed command, after an unclosed one.
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From bbfc444b4a8f0e2f669989c6b06771693b4ba93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 12/35] fix: put the results of macros into the expanded tree

Macros were called, but what they returned was thrown away, and a node
that could not be transformed made the expander panic.
---
 crates/brack-expander/src/expand.rs | 34 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..3e18096 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -31,25 +31,25 @@ fn expand_angle(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
 
 fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<AST> {
     let mut children = vec![];
-    match ast {
-        AST::Text(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Module(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Ident(_) => {
-            return Ok(ast.clone());
-        }
-        _ => {}
-    }
-    for child in ast.children() {
-        match child {
-            AST::Angle(_) => children.push(expand_angle(overall_ast, child, plugins)?),
-            _ => children.push(expand_other(overall_ast, child, plugins)?),
+    let mut new_ast = ast.clone();
+    match &mut new_ast {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => {
+            for child in ast.children() {
+                match child {
+                    AST::Angle(_) => children.push(expand_angle(overall_ast, child, plugins)?),
+                    _ => children.push(expand_other(overall_ast, child, plugins)?),
+                }
+            }
+            node.children = children;
         }
+        AST::Text(_) | AST::Module(_) | AST::Ident(_) | AST::Invalid(_) | AST::Ignored(_) => {}
     }
-    Ok(ast.clone())
+    Ok(new_ast)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From dd1a39382300069fb3d90ba768c9cd07e488298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/35] fix: report a closing bracket without an opening one

A closing bracket alone on a line was silently dropped.
---
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From a27234aff32952ef675e8f11c57765cfd06d6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 14/35] fix: keep the spaces inside of command arguments

All spaces were removed from arguments, turning 'Hello World' into
'HelloWorld'. Now only those around an argument are.
---
 crates/brack-transformer/src/utils.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..f71f882 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -65,23 +65,26 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
+    let mut previous_comma = None;
+    let mut whitespaces = vec![]; // kept only if something follows in the argument
     for i in 4..csts.len() {
         match csts[i].clone() {
             CST::Comma(_) => {
+                whitespaces.clear();
                 if expr.children().is_empty() {
                     errors.push(TransformError::UnexpectedComma(csts[i].location()));
                     continue;
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                previous_comma = Some(csts[i].location());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
+                whitespaces.clear();
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(location) = previous_comma.take() {
+                    errors.push(TransformError::UnexpectedComma(location));
                 }
                 expr = new_expr();
                 new_csts.push(csts[i].clone());
@@ -91,9 +94,17 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 errors.push(TransformError::UnexpectedDot(csts[i].location()));
                 continue;
             }
+            CST::Whitespace(_) => {
+                if !expr.children().is_empty() {
+                    whitespaces.push(csts[i].clone());
+                }
+            }
             _ => {
+                for whitespace in whitespaces.drain(..) {
+                    expr.add(whitespace);
+                }
                 expr.add(csts[i].clone());
-                previous_comma = false;
+                previous_comma = None;
             }
         }
     }
@@ -113,11 +124,13 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Whitespaces are only removed up to the identifier. In the arguments they are text.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
+            CST::Newline(_) => (),
+            CST::Whitespace(_) if result.len() < 4 => (),
             _ => result.push(cst.clone()),
         }
     }
-- 
2.43.0


From 09af25acc252b9b666682a1333cc78c7ba5cb90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 15/35] fix: bind arguments without panicking for any signature

---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 crates/brack-plugin/src/types.rs   | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..a43d52c 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..4c88384 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..84af20f 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max: usize = 0;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From 8bd9277624e66bd4c2386dd86cc268d9614d64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 16/35] fix: find a project's files from its own directory

The language server opens projects that are not in its working
directory, but their plugins were looked up and stored there.
---
 crates/brack-project-manager/src/project.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..fc96587 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -35,8 +35,8 @@ impl Project {
     }
 
     pub fn clear_plugins(&mut self) -> Result<()> {
-        std::fs::remove_dir_all("plugins")?;
-        std::fs::create_dir("plugins")?;
+        std::fs::remove_dir_all(self.root.join("plugins"))?;
+        std::fs::create_dir(self.root.join("plugins"))?;
         self.plugins_metadata = Default::default();
         Ok(())
     }
@@ -46,7 +46,8 @@ impl Project {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
                 let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                    self.root
+                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
@@ -124,7 +125,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
-        let entries = std::fs::read_dir("docs")?;
+        let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -139,16 +140,19 @@ impl Project {
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
+                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
-                    format!("out/{}.{}", file_stem, self.config.document.backend),
+                    self.root.join(format!(
+                        "out/{}.{}",
+                        file_stem, self.config.document.backend
+                    )),
                     gen,
                 )?;
             }
         }
 
         println!("Build succeeded.");
-        for out in std::fs::read_dir("out")? {
+        for out in std::fs::read_dir(self.root.join("out"))? {
             let out = out?;
             let path = out.path();
             let file_stem = path
-- 
2.43.0


From 09445fec61afdaed212bf8d69fcdc9dd75a8f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 17/35] fix: build projects without documents

Building one reported success and then failed to list the missing out
directory.
---
 crates/brack-project-manager/src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index fc96587..c2fd97e 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -125,6 +125,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
+        std::fs::create_dir_all(self.root.join("out"))?;
         let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
@@ -140,7 +141,6 @@ impl Project {
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
                     self.root.join(format!(
                         "out/{}.{}",
-- 
2.43.0


From f4a959621c0f05abb3fd296811ea33ba2c0638e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 18/35] fix: create the plugins directory before storing
 plugins

The first build of a fresh project failed after downloading.
---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index c2fd97e..5ece308 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -108,6 +108,7 @@ impl Project {
             }
 
             let results = join_all(tasks).await;
+            std::fs::create_dir_all(self.root.join("plugins"))?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
                 std::fs::write(&path, &bytes)?;
-- 
2.43.0


From d164f30afe86f611498647084e72c78d9792ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 19/35] fix: do not leave partially written plugins or
 Brack.toml behind

When storing failed halfway, 'add' had already emptied Brack.toml, and a
truncated plugin in the cache was used by every later build.
---
 crates/brack-project-manager/src/lib.rs     |  1 +
 crates/brack-project-manager/src/plugin.rs  | 11 +++++---
 crates/brack-project-manager/src/project.rs |  3 ++-
 crates/brack-project-manager/src/store.rs   | 30 +++++++++++++++++++++
 4 files changed, 40 insertions(+), 5 deletions(-)
 create mode 100644 crates/brack-project-manager/src/store.rs

diff --git a/crates/brack-project-manager/src/lib.rs b/crates/brack-project-manager/src/lib.rs
index 20b99d4..d8d4275 100644
--- a/crates/brack-project-manager/src/lib.rs
+++ b/crates/brack-project-manager/src/lib.rs
@@ -2,3 +2,4 @@ pub mod config;
 pub mod document;
 pub mod plugin;
 pub mod project;
+mod store;
diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..fa3a21c 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,7 +1,8 @@
 use crate::config::Config;
+use crate::store::store;
 use core::fmt;
 use sha2::{Digest, Sha256};
-use std::{collections::HashMap, fs::File, io, path::Path};
+use std::{collections::HashMap, path::Path};
 
 use anyhow::Result;
 use serde::{
@@ -262,8 +263,10 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
 
     let bytes = response.bytes().await?;
     std::fs::create_dir_all("plugins")?;
-    let mut out = File::create(format!("plugins/{}.wasm", repository_name))?;
-    io::copy(&mut bytes.as_ref(), &mut out)?;
+    store(
+        Path::new(&format!("plugins/{}.wasm", repository_name)),
+        &bytes,
+    )?;
 
     config.plugins.get_or_insert_with(HashMap::new).insert(
         plugin_name.to_string(),
@@ -278,7 +281,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    store(Path::new("Brack.toml"), toml.as_bytes())?;
 
     Ok(())
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 5ece308..9a8a183 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,5 +1,6 @@
 use crate::config::Config;
 use crate::plugin::PluginSchema;
+use crate::store::store;
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use bytes::Bytes;
@@ -111,7 +112,7 @@ impl Project {
             std::fs::create_dir_all(self.root.join("plugins"))?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
-                std::fs::write(&path, &bytes)?;
+                store(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
diff --git a/crates/brack-project-manager/src/store.rs b/crates/brack-project-manager/src/store.rs
new file mode 100644
index 0000000..4de0528
--- /dev/null
+++ b/crates/brack-project-manager/src/store.rs
@@ -0,0 +1,30 @@
+use anyhow::Result;
+use std::{
+    fs::{self, File},
+    io::Write,
+    path::Path,
+};
+
+/// Replaces the file at `path` as a whole: when storing fails, whatever was
+/// there before stays, and no partial file is left at `path`.
+pub(crate) fn store(path: &Path, bytes: &[u8]) -> Result<()> {
+    let mut temporary_path = path.as_os_str().to_owned();
+    temporary_path.push(format!(".{}.tmp", std::process::id()));
+
+    let result = write_and_rename(path, temporary_path.as_ref(), bytes);
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary_path);
+    }
+    result
+}
+
+fn write_and_rename(path: &Path, temporary_path: &Path, bytes: &[u8]) -> Result<()> {
+    let mut file = File::create(temporary_path)?;
+    if let Ok(metadata) = fs::metadata(path) {
+        file.set_permissions(metadata.permissions())?;
+    }
+    file.write_all(bytes)?;
+    file.sync_all()?;
+    fs::rename(temporary_path, path)?;
+    Ok(())
+}
-- 
2.43.0


From c85cbe1d5437d5aaa15be9fd0dfd5d3705c41887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 20/35] fix: keep the plugins of different backends apart in
 the cache

After changing the backend the plugins of the old one were still used.
---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index fa3a21c..f4093b0 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -172,9 +172,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?}", (self, backend)));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 9a8a183..c62db02 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -46,9 +46,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    self.root
-                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = self.root.join(format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From d9ea325d81827ec2f793f435110dae24b227c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 21/35] fix: do not generate output from documents with syntax
 errors

Syntax errors were ignored, and the parts of the document they concern
were missing from the output or ended up in the wrong place.
---
 crates/brack-project-manager/src/project.rs |  6 +++++-
 src/main.rs                                 | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index c62db02..9c4d921 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -142,7 +142,11 @@ impl Project {
             if path.extension() == Some("[]".as_ref()) {
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
-                let (ast, _errors) = brack_transformer::transform::transform(&parsed);
+                let (ast, errors) = brack_transformer::transform::transform(&parsed);
+                if !errors.is_empty() {
+                    let errors: Vec<_> = errors.iter().map(ToString::to_string).collect();
+                    anyhow::bail!("{}:\n{}", path.display(), errors.join("\n"));
+                }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
                 std::fs::write(
diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..5e8de7c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,7 +97,11 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         4 => {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if !errors.is_empty() {
+                let errors: Vec<_> = errors.iter().map(ToString::to_string).collect();
+                anyhow::bail!("{}:\n{}", filename, errors.join("\n"));
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
@@ -112,7 +116,11 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             }
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if !errors.is_empty() {
+                let errors: Vec<_> = errors.iter().map(ToString::to_string).collect();
+                anyhow::bail!("{}:\n{}", filename, errors.join("\n"));
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
             println!("{}", gen);
-- 
2.43.0


From b7838d1d7879b4c3922e6697834a36ec6b98ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 22/35] fix: take the module name of a plugin from its whole
 file name

Plugins whose names contain anything but letters were ignored or found
under a part of their name, and directory names were searched too.
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5e8de7c..75d3ce7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,14 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
         let capture = pattern.captures(
-            path.to_str()
+            path.file_name()
+                .and_then(|file_name| file_name.to_str())
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From 0192f97cd9491e4b7b9a00c8c0b2e8da679ca5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 23/35] fix: quote the project name in a new Brack.toml

A name with a quote or a backslash gave a file that did not load.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 75d3ce7..bbe5444 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -133,6 +133,8 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
 }
 
 fn new_project(name: &str) -> Result<()> {
+    // A JSON string is a TOML string, apart from DEL, which JSON leaves as it is.
+    let quoted_name = serde_json::to_string(name)?.replace('\u{7f}', "\\u007f");
     std::fs::create_dir(name)?;
     std::fs::create_dir(format!("{}/docs", name))?;
     std::fs::write(format!("{}/docs/main.[]", name), "")?;
@@ -140,14 +142,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            quoted_name
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From 1663c89950b356034520706bce542c73486e78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 24/35] fix: choose between plugin files of one module by name

Which of several cached versions was used depended on the order in which
the directory listed them.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bbe5444..3c4fbd4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -32,9 +32,9 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
     };
 
     let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
-    let entries = std::fs::read_dir(plugins_dir_path)?;
+    let mut entries = std::fs::read_dir(plugins_dir_path)?.collect::<std::io::Result<Vec<_>>>()?;
+    entries.sort_by_key(|entry| entry.file_name());
     for entry in entries {
-        let entry = entry?;
         let path = entry.path();
         let capture = pattern.captures(
             path.file_name()
-- 
2.43.0


From 9f5a4bdc30dbc91b5b2917726ee0f06fa86160e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 25/35] fix: read messages however the input is split

A multi-byte character split between two reads and a header without ': '
ended the language server, and when several messages arrived in one read
only the first was handled until more input came.
---
 crates/brack-language-server/src/server.rs | 63 +++++++++++-----------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..e78063c 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,10 +1,8 @@
-use std::str::from_utf8;
-
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -134,39 +132,42 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+            while let Some((header_length, content_length)) = parse_header(&buffer) {
+                let content_length = match content_length {
+                    Some(content_length) => content_length,
+                    None => {
+                        // Without a length there is no way to know the end of the content.
+                        buffer.drain(0..header_length);
+                        self.send_invalid_request_response().await?;
+                        continue;
+                    }
+                };
+                let total_length = header_length.saturating_add(content_length);
+
+                if buffer.len() < total_length {
+                    break;
                 }
-            }
 
-            if content_length == -1 {
-                continue;
+                let msg: Value = from_slice(&buffer[header_length..total_length])?;
+                buffer.drain(0..total_length);
+                self.dispatch(msg).await?;
             }
-            let total_length = header_length + content_length as usize;
-
-            if buffer.len() < total_length {
-                continue;
-            }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
     }
 }
+
+// Length of the header including the empty line after it, and the content length it gives.
+fn parse_header(buffer: &[u8]) -> Option<(usize, Option<usize>)> {
+    let separator = b"\r\n\r\n";
+    let position = buffer
+        .windows(separator.len())
+        .position(|window| window == separator)?;
+    let content_length = String::from_utf8_lossy(&buffer[..position])
+        .split("\r\n")
+        .filter_map(|line| line.split_once(':'))
+        .find(|(key, _)| key.trim().eq_ignore_ascii_case("Content-Length"))
+        .and_then(|(_, value)| value.trim().parse().ok());
+    Some((position + separator.len(), content_length))
+}
-- 
2.43.0


From 9d5c72e1e85ebbd78247509b93c6f0a223a84a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 26/35] fix: answer every language server request

Requests with a string as id were taken for notifications, and those
without a result, such as completion outside of a project, were never
answered.
---
 crates/brack-language-server/src/request.rs  | 26 +++++++-------------
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  7 +++---
 crates/brack-language-server/src/server.rs   | 16 +++++++-----
 4 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..107fe44 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: &Value,
         method: &str,
     ) -> Result<()> {
         match method {
@@ -106,14 +106,10 @@ impl Server {
             "textDocument/semanticTokens/full" => {
                 let params = SemanticTokensParams::deserialize(msg["params"].clone())?;
                 match self.handle_semantic_tokens_full(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
                             .await
@@ -123,14 +119,10 @@ impl Server {
             "textDocument/completion" => {
                 let params = CompletionParams::deserialize(msg["params"].clone())?;
                 match self.handle_completion(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
                             .await
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..77918d8 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: &Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..a26e561 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,17 +1,18 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: &Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
-            id,
+            id: id.clone(),
             result,
         }
     }
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index e78063c..97935a0 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -46,7 +46,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<&Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -67,7 +67,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: &Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -107,10 +111,10 @@ impl Server {
     }
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
-        match (
-            msg.get("id").and_then(|i| i.as_i64()),
-            msg.get("method").and_then(|m| m.as_str()),
-        ) {
+        match (msg.get("id"), msg.get("method").and_then(|m| m.as_str())) {
+            (Some(id), _) if !id.is_number() && !id.is_string() => {
+                self.send_invalid_request_response().await
+            }
             (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
             (Some(id), None) => self.handle_response(&msg, id).await,
             (None, Some(method)) => self.handle_notification(&msg, method).await,
-- 
2.43.0


From fccf94b5e11f8375bdc7e3fd89db981e7b612239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 27/35] fix: keep the language server running after errors

A document that does not parse, a message that is not JSON, ill-typed
parameters or a failing plugin download ended the server.
---
 .../src/notification/did_save.rs              | 20 +++++++++++++++++-
 crates/brack-language-server/src/server.rs    | 21 ++++++++++++++-----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..2b911a3 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -24,7 +24,25 @@ impl Server {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
-        let cst = parse(&tokens)?;
+        let cst = match parse(&tokens) {
+            Ok(cst) => cst,
+            Err(e) => {
+                // There is no location for the error, so it is shown for the whole document.
+                let end = tokens.last().map(|token| token.get_location().end);
+                let diagnostic = Diagnostic {
+                    range: lsp_types::Range {
+                        start: lsp_types::Position::new(0, 0),
+                        end: lsp_types::Position::new(
+                            end.as_ref().map_or(0, |end| end.line as u32),
+                            end.as_ref().map_or(0, |end| end.character as u32),
+                        ),
+                    },
+                    message: format!("Parse failed: {}", e),
+                    ..Default::default()
+                };
+                return self.send_publish_diagnostics(uri, &vec![diagnostic]).await;
+            }
+        };
         let (_, errors) = transform(&cst);
 
         if errors.is_empty() {
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 97935a0..4b33c2c 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -76,7 +76,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -115,9 +114,18 @@ impl Server {
             (Some(id), _) if !id.is_number() && !id.is_string() => {
                 self.send_invalid_request_response().await
             }
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => {
+                    self.send_error_response(Some(id), -32602, &format!("{}: {}", method, e))
+                        .await
+                }
+            },
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => match self.handle_notification(&msg, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => self.log_message(&format!("{} failed: {}", method, e)).await,
+            },
             _ => self.send_invalid_request_response().await,
         }
     }
@@ -152,9 +160,12 @@ impl Server {
                     break;
                 }
 
-                let msg: Value = from_slice(&buffer[header_length..total_length])?;
+                let msg = from_slice::<Value>(&buffer[header_length..total_length]);
                 buffer.drain(0..total_length);
-                self.dispatch(msg).await?;
+                match msg {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
+                }
             }
         }
 
-- 
2.43.0


From 621c9c148f9822dcc6c5f4901d59141fba43f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 28/35] fix: publish diagnostics for the URI of the document

They were published for its file path, which no client knows.
---
 .../src/notification/did_save.rs                 | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index 2b911a3..4c4001d 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -11,9 +11,8 @@ impl Server {
         &self,
         param: DidSaveTextDocumentParams,
     ) -> Result<()> {
-        let file_path = param
-            .text_document
-            .uri
+        let document_uri = param.text_document.uri;
+        let file_path = document_uri
             .to_file_path()
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
         let uri = file_path
@@ -40,14 +39,18 @@ impl Server {
                     message: format!("Parse failed: {}", e),
                     ..Default::default()
                 };
-                return self.send_publish_diagnostics(uri, &vec![diagnostic]).await;
+                return self
+                    .send_publish_diagnostics(document_uri.as_str(), &vec![diagnostic])
+                    .await;
             }
         };
         let (_, errors) = transform(&cst);
 
         if errors.is_empty() {
             let diagnostics: Vec<Diagnostic> = vec![];
-            return self.send_publish_diagnostics(uri, &diagnostics).await;
+            return self
+                .send_publish_diagnostics(document_uri.as_str(), &diagnostics)
+                .await;
         }
 
         let mut diagnostics = vec![];
@@ -70,6 +73,7 @@ impl Server {
             };
             diagnostics.push(diagnostic);
         }
-        self.send_publish_diagnostics(uri, &diagnostics).await
+        self.send_publish_diagnostics(document_uri.as_str(), &diagnostics)
+            .await
     }
 }
-- 
2.43.0


From d9f098900e80cefb02539a6e3425b5d4c4f92420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 29/35] fix: offer macros for completion after an opening angle
 bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From 6fc9185d88989f5726ce9170d694126eaed94f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 30/35] fix: count UTF-16 code units in language server
 positions

Columns were those of the tokenizer, which counts user-perceived
characters, so everything after an emoji was off.
---
 crates/brack-language-server/src/lib.rs       |  1 +
 .../src/notification/did_save.rs              | 19 ++------
 crates/brack-language-server/src/position.rs  | 48 +++++++++++++++++++
 .../src/request/semantic_tokens.rs            | 17 +++----
 4 files changed, 62 insertions(+), 23 deletions(-)
 create mode 100644 crates/brack-language-server/src/position.rs

diff --git a/crates/brack-language-server/src/lib.rs b/crates/brack-language-server/src/lib.rs
index 10a63f2..d4feef1 100644
--- a/crates/brack-language-server/src/lib.rs
+++ b/crates/brack-language-server/src/lib.rs
@@ -1,4 +1,5 @@
 mod notification;
+mod position;
 mod request;
 mod response;
 mod result;
diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index 4c4001d..63cee5b 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -4,7 +4,7 @@ use brack_tokenizer::tokenize::tokenize;
 use brack_transformer::transform::transform;
 use lsp_types::{Diagnostic, DidSaveTextDocumentParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 impl Server {
     pub(crate) async fn handle_text_document_did_save(
@@ -23,6 +23,7 @@ impl Server {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
+        let positions = Positions::new(&tokens);
         let cst = match parse(&tokens) {
             Ok(cst) => cst,
             Err(e) => {
@@ -31,10 +32,7 @@ impl Server {
                 let diagnostic = Diagnostic {
                     range: lsp_types::Range {
                         start: lsp_types::Position::new(0, 0),
-                        end: lsp_types::Position::new(
-                            end.as_ref().map_or(0, |end| end.line as u32),
-                            end.as_ref().map_or(0, |end| end.character as u32),
-                        ),
+                        end: end.map_or_else(Default::default, |end| positions.position(&end)),
                     },
                     message: format!("Parse failed: {}", e),
                     ..Default::default()
@@ -58,16 +56,7 @@ impl Server {
             let location = error.get_location();
             let message = error.get_message();
             let diagnostic = Diagnostic {
-                range: lsp_types::Range {
-                    start: lsp_types::Position {
-                        line: location.start.line as u32,
-                        character: location.start.character as u32,
-                    },
-                    end: lsp_types::Position {
-                        line: location.end.line as u32,
-                        character: location.end.character as u32,
-                    },
-                },
+                range: positions.range(&location),
                 message,
                 ..Default::default()
             };
diff --git a/crates/brack-language-server/src/position.rs b/crates/brack-language-server/src/position.rs
new file mode 100644
index 0000000..3f35bc7
--- /dev/null
+++ b/crates/brack-language-server/src/position.rs
@@ -0,0 +1,48 @@
+use std::collections::HashMap;
+
+use brack_tokenizer::tokens::{Location, LocationData, Token};
+use lsp_types::{Position, Range};
+
+/// Converts locations, which count user-perceived characters, to positions of
+/// the Language Server Protocol, which count UTF-16 code units.
+pub(crate) struct Positions {
+    characters: HashMap<(usize, usize), u32>,
+}
+
+impl Positions {
+    /// Knows the positions of everything that starts and ends with one of `tokens`.
+    pub(crate) fn new(tokens: &[Token]) -> Self {
+        let mut characters = HashMap::new();
+        let mut line = 0;
+        let mut character = 0;
+        for token in tokens {
+            let location = token.get_location();
+            if location.start.line != line {
+                line = location.start.line;
+                character = 0;
+            }
+            characters.insert((line, location.start.character), character);
+            character += match token {
+                Token::Text(text, _) | Token::Module(text, _) | Token::Ident(text, _) => {
+                    text.encode_utf16().count() as u32
+                }
+                _ => (location.end.character - location.start.character) as u32,
+            };
+            characters.insert((line, location.end.character), character);
+        }
+        Self { characters }
+    }
+
+    pub(crate) fn position(&self, location: &LocationData) -> Position {
+        let character = self
+            .characters
+            .get(&(location.line, location.character))
+            .copied()
+            .unwrap_or(location.character as u32);
+        Position::new(location.line as u32, character)
+    }
+
+    pub(crate) fn range(&self, location: &Location) -> Range {
+        Range::new(self.position(&location.start), self.position(&location.end))
+    }
+}
diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 40b360e..fceabfb 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -2,7 +2,7 @@ use anyhow::Result;
 use brack_tokenizer::{tokenize::tokenize, tokens::Token};
 use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokensParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 fn token_kind_to_type(token: &Token) -> u32 {
     let typ = match token {
@@ -48,26 +48,27 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut semantic_tokens = Vec::new();
     let mut prev_line = 0;
     let mut prev_char = 0;
+    let positions = Positions::new(tokens);
 
     for token in tokens {
-        let location = token.get_location();
-        let delta_line = location.start.line as u32 - prev_line;
+        let range = positions.range(&token.get_location());
+        let delta_line = range.start.line - prev_line;
         let delta_start = if delta_line == 0 {
-            location.start.character as u32 - prev_char
+            range.start.character - prev_char
         } else {
-            location.start.character as u32
+            range.start.character
         };
 
         semantic_tokens.push(SemanticToken {
             delta_line,
             delta_start,
-            length: (location.end.character - location.start.character) as u32,
+            length: range.end.character - range.start.character,
             token_type: token_kind_to_type(token),
             token_modifiers_bitset: 0,
         });
 
-        prev_line = location.start.line as u32;
-        prev_char = location.start.character as u32;
+        prev_line = range.start.line;
+        prev_char = range.start.character;
     }
 
     semantic_tokens
-- 
2.43.0


From 15f724dc46e3b3d845a836f98789ce48b5df3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 31/35] fix: escape snippet syntax in completed command names

---
 .../src/request/completion.rs                      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 5888ccf..956a781 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -4,16 +4,24 @@ use lsp_types::{CompletionItem, CompletionParams, CompletionResponse, InsertText
 
 use crate::server::Server;
 
+// Names are inserted as part of a snippet, where some characters have a meaning of their own.
+fn escape_snippet(text: &str) -> String {
+    text.replace('\\', "\\\\")
+        .replace('$', "\\$")
+        .replace('}', "\\}")
+}
+
 fn build_completion_item(
     module_name: &str,
     name: &str,
     typ: &Type,
     command_metadata: &Metadata,
 ) -> CompletionItem {
+    let command = escape_snippet(&format!("{}.{}", module_name, name));
     let insert_text = Some(match typ {
-        Type::TInline => format!("{}.{} $0]", module_name, name),
-        Type::TBlock => format!("{}.{} $0}}", module_name, name),
-        Type::TAST => format!("{}.{} $0>", module_name, name),
+        Type::TInline => format!("{} $0]", command),
+        Type::TBlock => format!("{} $0}}", command),
+        Type::TAST => format!("{} $0>", command),
         _ => panic!("Invalid type"),
     });
     CompletionItem {
-- 
2.43.0


From 5e929dcf3c6eda0b54ac72bc5cc7417a4bb729b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 32/35] fix: add takes the plugin schema apart exactly

A version containing '@' lost everything after it, and a path with more
than two components was accepted with the rest of it dropped.
---
 crates/brack-project-manager/src/plugin.rs | 28 +++++++---------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index f4093b0..dd2ab50 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -189,28 +189,18 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         return Err(anyhow::anyhow!("Brack.toml is not found."));
     }
 
-    let repository_type = schema
-        .split(':')
-        .next()
+    let (repository_type, location) = schema
+        .split_once(':')
         .ok_or_else(|| anyhow::anyhow!("Repository type is not found."))?;
-    let owner = schema
-        .split('/')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?
-        .split(':')
-        .nth(1)
+    let (owner, location) = location
+        .split_once('/')
         .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?;
-    let repo = schema
-        .split('/')
-        .nth(1)
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?
-        .split('@')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?;
-    let version = schema
-        .split('@')
-        .nth(1)
+    let (repo, version) = location
+        .split_once('@')
         .ok_or_else(|| anyhow::anyhow!("Version is not found."))?;
+    if owner.is_empty() || repo.is_empty() || repo.contains('/') || version.is_empty() {
+        return Err(anyhow::anyhow!("Malformed plugin schema '{}'.", schema));
+    }
     let url = match repository_type {
         "github" => format!("https://github.com/{}/{}", owner, repo),
         _ => {
-- 
2.43.0


From b54469c34de5c1207d207740eba9774ee418725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:10 +0000
Subject: [PATCH 33/35] fix: files whose names are not UTF-8 do not stop a
 build unless they are documents

---
 crates/brack-project-manager/src/project.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 9c4d921..dee212f 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -134,12 +134,12 @@ impl Project {
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
-            let file_stem = path
-                .file_stem()
-                .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
             if path.extension() == Some("[]".as_ref()) {
+                let file_stem = path
+                    .file_stem()
+                    .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
+                    .to_str()
+                    .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
                 let (ast, errors) = brack_transformer::transform::transform(&parsed);
@@ -166,8 +166,7 @@ impl Project {
             let file_stem = path
                 .file_name()
                 .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
+                .to_string_lossy();
             println!("  - ./out/{}", file_stem);
         }
         Ok(())
-- 
2.43.0


From cdcbf906b92c55f0a2af0d526f29fab429ed0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 34/35] fix: download versions and names with number signs,
 question marks or percent signs

---
 crates/brack-project-manager/src/lib.rs     |  1 +
 crates/brack-project-manager/src/plugin.rs  |  2 ++
 crates/brack-project-manager/src/project.rs |  2 ++
 crates/brack-project-manager/src/url.rs     | 11 +++++++++++
 4 files changed, 16 insertions(+)
 create mode 100644 crates/brack-project-manager/src/url.rs

diff --git a/crates/brack-project-manager/src/lib.rs b/crates/brack-project-manager/src/lib.rs
index d8d4275..fb22290 100644
--- a/crates/brack-project-manager/src/lib.rs
+++ b/crates/brack-project-manager/src/lib.rs
@@ -3,3 +3,4 @@ pub mod document;
 pub mod plugin;
 pub mod project;
 mod store;
+mod url;
diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index dd2ab50..2af3877 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,5 +1,6 @@
 use crate::config::Config;
 use crate::store::store;
+use crate::url::escape_url;
 use core::fmt;
 use sha2::{Digest, Sha256};
 use std::{collections::HashMap, path::Path};
@@ -236,6 +237,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         "{}/releases/download/{}/{}.wasm",
         url, version, repository_name
     );
+    let download_url = escape_url(&download_url);
 
     let response = reqwest::get(&download_url).await?;
 
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index dee212f..d661ee5 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,6 +1,7 @@
 use crate::config::Config;
 use crate::plugin::PluginSchema;
 use crate::store::store;
+use crate::url::escape_url;
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use bytes::Bytes;
@@ -88,6 +89,7 @@ impl Project {
                             "https://github.com/{}/{}/releases/download/{}/{}.{}.wasm",
                             owner, repo, version, name, self.config.document.backend
                         );
+                        let url = escape_url(&url);
                         let task: JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>> =
                             task::spawn(async move {
                                 let response = reqwest::get(&url).await?;
diff --git a/crates/brack-project-manager/src/url.rs b/crates/brack-project-manager/src/url.rs
new file mode 100644
index 0000000..39f7ebf
--- /dev/null
+++ b/crates/brack-project-manager/src/url.rs
@@ -0,0 +1,11 @@
+/// Escapes what would not be taken for a part of the path, or not for itself,
+/// such as the number sign of the version "v1#2".
+pub(crate) fn escape_url(url: &str) -> String {
+    url.chars()
+        .map(|c| match c {
+            '%' | '?' | '#' | '\\' => format!("%{:02X}", c as u32),
+            c if c.is_ascii_control() => format!("%{:02X}", c as u32),
+            c => c.to_string(),
+        })
+        .collect()
+}
-- 
2.43.0


From 39a1f8701526b5c2fc7a75643e6b04a636032fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 35/35] fix: do not panic on printing nodes without a value

---
 crates/brack-transformer/src/ast.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 0bb5a39..9d370c1 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -198,11 +198,26 @@ impl AST {
                 }
                 Ok(())
             }
-            AST::Ident(node) => writeln!(f, "{}Ident: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Ident(node) => writeln!(
+                f,
+                "{}Ident: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Module(node) => {
-                writeln!(f, "{}Module: {}", ident_str, node.value.as_ref().unwrap())
+                writeln!(
+                    f,
+                    "{}Module: {}",
+                    ident_str,
+                    node.value.as_deref().unwrap_or_default()
+                )
             }
-            AST::Text(node) => writeln!(f, "{}Text: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Text(node) => writeln!(
+                f,
+                "{}Text: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Invalid(_) => writeln!(f, "{}Invalid", ident_str),
             AST::Ignored(_) => writeln!(f, "{}Ignored", ident_str),
         }
-- 
2.43.0

