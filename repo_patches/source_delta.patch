From 5895d955f719fdb92ba2adf3d992048e79f0f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 1/3] fix: report an error when there is no last result

Runner::last() unwrapped a missing output and panicked before the first
evaluation and after any evaluation that failed.
---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..f21ae2a 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("there is no last result"))),
+        }
     }
 }
-- 
2.43.0


From 56b35b74ce6b623ac8fd29ac9d46940814f5ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 2/3] fix: keep the playground usable after an evaluation
 unwinds

An input on which evaluation panics poisoned the session's mutex, and every
later call to result and result_tex panicked on it.
---
 projects/sm-playground/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/sm-playground/src/lib.rs b/projects/sm-playground/src/lib.rs
index 68c4567..0a43ee8 100644
--- a/projects/sm-playground/src/lib.rs
+++ b/projects/sm-playground/src/lib.rs
@@ -1,6 +1,6 @@
 use lazy_static::lazy_static;
 use sm_ast::{Runner, ToTex};
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError};
 use wasm_bindgen::prelude::*;
 
 lazy_static! {
@@ -9,7 +9,7 @@ lazy_static! {
 
 #[wasm_bindgen]
 pub fn result(input: &str) -> String {
-    let r = &mut RUNNER.lock().unwrap();
+    let r = &mut RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
     match r.evaluate(input) {
         Ok(o) => o,
         Err(e) => format!("{:?}", e),
@@ -18,7 +18,7 @@ pub fn result(input: &str) -> String {
 
 #[wasm_bindgen]
 pub fn result_tex() -> String {
-    let r = &mut RUNNER.lock().unwrap();
+    let r = &mut RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
     match r.last() {
         Ok(o) => o.to_tex(),
         Err(e) => format!("{:?}", e),
-- 
2.43.0


From 523295211800b957292b4d2b325e8b757d7b7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 3/3] fix: set the playground session up again when its first
 set-up fails

lazy_static never retries an initialiser that unwinds, so a failed allocation
in the first call made every later call panic.
---
 projects/sm-playground/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-playground/src/lib.rs b/projects/sm-playground/src/lib.rs
index 0a43ee8..2b6405f 100644
--- a/projects/sm-playground/src/lib.rs
+++ b/projects/sm-playground/src/lib.rs
@@ -4,12 +4,13 @@ use std::sync::{Mutex, PoisonError};
 use wasm_bindgen::prelude::*;
 
 lazy_static! {
-    static ref RUNNER: Mutex<Runner> = Mutex::new(Runner::default());
+    static ref RUNNER: Mutex<Option<Runner>> = Mutex::new(None);
 }
 
 #[wasm_bindgen]
 pub fn result(input: &str) -> String {
-    let r = &mut RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
+    let mut r = RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
+    let r = r.get_or_insert_with(Runner::default);
     match r.evaluate(input) {
         Ok(o) => o,
         Err(e) => format!("{:?}", e),
@@ -18,7 +19,8 @@ pub fn result(input: &str) -> String {
 
 #[wasm_bindgen]
 pub fn result_tex() -> String {
-    let r = &mut RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
+    let mut r = RUNNER.lock().unwrap_or_else(PoisonError::into_inner);
+    let r = r.get_or_insert_with(Runner::default);
     match r.last() {
         Ok(o) => o.to_tex(),
         Err(e) => format!("{:?}", e),
-- 
2.43.0

