From a85abc3fef87aad1691eafb5dfbe44dfe8b8a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 01/17] fix: hook ? operators on the left side of an assignment

---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From dfa12f14d4764d0bbcdd1a1d693c55543a51161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 02/17] fix: take the position of a tail expression before its
 inside is hooked

---
 hooq-macros/src/impls/walker/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..2a19f56 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -71,6 +71,8 @@ fn handle_tail_expr(
     } = handle_inert_attrs(attrs, context)?;
 
     let source_tokenstream = expr.to_token_stream();
+    // walk_expr でフックされると先頭トークンの Span が変わりうるため、先に取得しておく
+    let q_span = expr.span();
 
     walk_expr(expr, &context)?;
 
@@ -92,8 +94,6 @@ fn handle_tail_expr(
             && tail_expr_target_kind == TailExprTargetKind::FnBlockTailExpr
             && !is_not_target_call
     {
-        let q_span = expr.span();
-
         let _exc = hook_expr(
             !is_skipped,
             expr,
-- 
2.43.0


From 24f1fc33f517c36458465f73beb1b529088c276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 03/17] fix: do not hook a tail return, break or continue as a
 tail expression

---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 2a19f56..492ded0 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -81,6 +81,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // 値を生まない式 (return については Return として既にフック済み)
+    if matches!(expr, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From 3626fd39f4810122cd3187a1ec60da429c88b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 04/17] fix: apply an inserted method to the whole returned or
 tail expression

---
 hooq-macros/src/impls/method/render/mod.rs | 23 +++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..a25ff98 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -18,6 +18,22 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// `return` や tail expression では `*boxed` のような、メソッド呼び出しより優先順位の低い式が
+/// そのままフック対象になる。`.method` が式全体にかかるよう括弧で囲む
+fn as_operand(expr: &Expr) -> TokenStream {
+    match expr {
+        Expr::Assign(_)
+        | Expr::Binary(_)
+        | Expr::Cast(_)
+        | Expr::Closure(_)
+        | Expr::Range(_)
+        | Expr::RawAddr(_)
+        | Expr::Reference(_)
+        | Expr::Unary(_) => quote! { (#expr) },
+        _ => expr.to_token_stream(),
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -44,10 +60,11 @@ impl HookInfo<'_> {
             Method::Insert(dot, method_template, exc) => {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
+                let operand = as_operand(expr);
 
                 (
                     parse_quote! {
-                        #expr #dot #method
+                        #operand #dot #method
                     },
                     exc,
                 )
@@ -246,7 +263,7 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(expr.to_token_stream()),
+            Ok(MetaVars::Expr) => Ok(as_operand(expr)),
             Ok(MetaVars::Source) => {
                 let source_ts = self.source_tokenstream.clone();
 
-- 
2.43.0


From 3d90b63719750ed3c68b468ce19ddfcfeebc7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 05/17] fix: let the empty flavor consume inner attributes in
 macro arguments

---
 hooq-macros/src/impls/flavor/presets/empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/flavor/presets/empty.rs b/hooq-macros/src/impls/flavor/presets/empty.rs
index ddd9f6e..b0a691b 100644
--- a/hooq-macros/src/impls/flavor/presets/empty.rs
+++ b/hooq-macros/src/impls/flavor/presets/empty.rs
@@ -19,7 +19,7 @@ pub fn empty_flavor() -> Flavor {
         tail_expr_idents: Vec::new(),
         ignore_tail_expr_idents: Vec::new(),
         result_types: Vec::new(),
-        hook_in_macros: false,
+        hook_in_macros: true,
         bindings: HashMap::new(),
         sub_flavors: HashMap::new(),
     }
-- 
2.43.0


From 738ff8ba79e8326f2e8666f2ba222d7e7c2f817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 06/17] fix: report configuration errors in an order
 independent of hash seeds

---
 hooq-macros/src/impls/flavor/mod.rs             | 3 +++
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 4 ++--
 hooq-macros/src/impls/flavor/toml_load/mod.rs   | 9 +++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..9f845a1 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,9 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        // HashMap の反復順序によらずエラーメッセージが一意になるようソート
+        names.sort();
+
         names
     }
 }
diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..a351e59 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 use proc_macro2::TokenStream;
@@ -34,7 +34,7 @@ fn split_include_or_not_include(idents: Vec<String>) -> (Vec<String>, Vec<String
 
 fn update_flavor_inner(
     flavors: &mut HashMap<String, Flavor>,
-    flavor_tables: HashMap<String, FlavorTable>,
+    flavor_tables: BTreeMap<String, FlavorTable>,
     base_flavor: &Flavor,
 ) -> Result<(), String> {
     for (
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..6fc6b5b 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -1,13 +1,14 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::Deserialize;
 
 pub mod apply;
 
+// 反復順序が実行ごとに変わるとエラーメッセージが一意に定まらないため BTreeMap を用いる
 #[derive(Deserialize, Debug, Clone)]
 pub struct HooqToml {
     #[serde(flatten)]
-    pub flavors: HashMap<String, FlavorTable>,
+    pub flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[derive(Deserialize, Debug, Clone)]
@@ -21,9 +22,9 @@ pub struct FlavorTable {
     pub result_types: Option<Vec<String>>,
     pub hook_in_macros: Option<bool>,
     #[serde(default)]
-    pub bindings: HashMap<String, String>,
+    pub bindings: BTreeMap<String, String>,
     #[serde(flatten)]
-    pub sub_flavors: HashMap<String, FlavorTable>,
+    pub sub_flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From e9d8de1f726c60a0e93b4ee9546d97f207a44288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 07/17] fix: inherit trait_uses when a flavor table does not
 set it

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 13 +++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index a351e59..b139064 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,13 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            flavor.trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index 6fc6b5b..0dae214 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -13,8 +13,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From 9618f6a5028c3cac669d413739820951da3d7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 08/17] fix: report an unreadable hooq.toml instead of ignoring
 it

---
 hooq-macros/src/impls/flavor/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 9f845a1..26f5141 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -102,12 +102,11 @@ impl TomlStore {
         let dir_path = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".to_string());
         let path = PathBuf::from(dir_path).join("hooq.toml");
 
-        if let Ok(false) | Err(_) = path.try_exists() {
-            return Ok(None);
-        }
-
-        let content = std::fs::read_to_string(&path)
-            .map_err(|e| format!("failed to read file `{}`: {}", path.display(), e))?;
+        let content = match std::fs::read_to_string(&path) {
+            Ok(content) => content,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(None),
+            Err(e) => return Err(format!("failed to read file `{}`: {}", path.display(), e)),
+        };
 
         let hooq_toml: HooqToml = toml::from_str(&content)
             .map_err(|e| format!("failed to parse toml from file `{}`: {}", path.display(), e))?;
-- 
2.43.0


From 2c3795acb4dcac9099dd7a0a1dbe3250cb00bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 09/17] fix: keep the configuration that a concurrent expansion
 already stored

---
 hooq-macros/src/impls/flavor/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 26f5141..54acf13 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -113,9 +113,7 @@ impl TomlStore {
 
         let checked_hooq_toml = CheckedHooqToml::try_from(hooq_toml)?;
 
-        LOADED_HOOQ_TOML.set(checked_hooq_toml.clone());
-
-        Ok(Some(checked_hooq_toml))
+        Ok(Some(LOADED_HOOQ_TOML.set(checked_hooq_toml)))
     }
 
     // NOTE:
@@ -124,10 +122,18 @@ impl TomlStore {
     //
     // 効果がどれぐらいあるかは懐疑的であるが、少しでも軽減すべく
     // プロジェクトごとに保存領域を分けるようにした
-    fn set(&self, checked_hooq_toml: CheckedHooqToml) {
+    //
+    // 並行する展開が先に保存していた場合はそちらを採用する
+    // (上書きしてしまうと、同じプロセス内で途中から別の内容の設定が使われうるため)
+    fn set(&self, checked_hooq_toml: CheckedHooqToml) -> CheckedHooqToml {
         let key = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".to_string());
 
-        self.inner.lock().unwrap().insert(key, checked_hooq_toml);
+        self.inner
+            .lock()
+            .unwrap()
+            .entry(key)
+            .or_insert(checked_hooq_toml)
+            .clone()
     }
 
     fn get(&self) -> Option<CheckedHooqToml> {
-- 
2.43.0


From 04608de85d5297794bf07dcab8f9f707bf797aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 10/17] fix: look up the name of the hooq dependency per
 project

---
 .../src/impls/utils/get_hooq_crate_name.rs    | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..5b0aed4 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,36 @@
-use std::sync::OnceLock;
+use std::collections::HashMap;
+use std::sync::{LazyLock, Mutex};
 
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
+// NOTE:
+// 1つのプロセスが複数のプロジェクトを展開することがあるため、プロジェクトごとに保持する
+pub fn get_hooq_crate_name() -> String {
+    static RES: LazyLock<Mutex<HashMap<String, String>>> =
+        LazyLock::new(|| Mutex::new(HashMap::new()));
 
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+    let key = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".to_string());
 
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+    if let Some(name) = RES.lock().unwrap().get(&key) {
+        return name.clone();
+    }
+
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+
+    let name = match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    };
+
+    RES.lock().unwrap().entry(key).or_insert(name).clone()
 }
 
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From 9e3798bea2e6f9ed5171aa3c42274bcb78cc43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 11/17] fix: keep the line numbers of an excerpt right after a
 multi-line literal

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..a285005 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // A literal may span several lines
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 12cc4a30b8668ff3a0d7a5bc7f23fb43d2236635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 12/17] fix: a skip inside skip_all does not enable hooks again

---
 hooq-macros/src/impls/inert_attr/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..8efc5ab 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,10 +222,13 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
-        let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
-            &parent_context.local_context.skip_status,
-        );
+        // skip_all の内側では、skip によってフックが再び有効になることはない
+        let skip_status = match &**parent_context.local_context.skip_status {
+            Some(SkipStatus::SkipAll) => None,
+            _ => inert_attr.get_skip_status().map(Option::Some),
+        };
+        let skip_status =
+            LocalContextField::from_parent(skip_status, &parent_context.local_context.skip_status);
         let InertAttribute {
             method,
             hook_targets,
-- 
2.43.0


From e4028e69de1ff32dddbcf28162ee0f952af73fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 13/17] fix: report a hook method that makes no expression
 instead of panicking

---
 hooq-macros/src/impls/method/render/mod.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index a25ff98..26bde32 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -34,6 +34,12 @@ fn as_operand(expr: &Expr) -> TokenStream {
     }
 }
 
+/// 展開後のメソッドが式にならない場合 (`method()` など) はパニックではなくコンパイルエラーとする
+fn parse_hooked(hooked: TokenStream, q_span: Span) -> syn::Result<Expr> {
+    syn::parse2(hooked)
+        .map_err(|e| syn::Error::new(q_span, format!("failed to parse hooked expression: {e}")))
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -62,12 +68,7 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
                 let operand = as_operand(expr);
 
-                (
-                    parse_quote! {
-                        #operand #dot #method
-                    },
-                    exc,
-                )
+                (parse_hooked(quote! { #operand #dot #method }, q_span)?, exc)
             }
             Method::Replace(method_template, exc) => {
                 /*
@@ -89,12 +90,7 @@ impl HookInfo<'_> {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
 
-                (
-                    parse_quote! {
-                        #method
-                    },
-                    exc,
-                )
+                (parse_hooked(method, q_span)?, exc)
             }
         };
 
-- 
2.43.0


From 6b6380a917c64ea0318470e340d1e661ecadb1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 14/17] fix: recognise a return type that comes through a macro
 fragment

---
 hooq-macros/src/impls/utils/function_info.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/utils/function_info.rs b/hooq-macros/src/impls/utils/function_info.rs
index 05214bf..9c1360f 100644
--- a/hooq-macros/src/impls/utils/function_info.rs
+++ b/hooq-macros/src/impls/utils/function_info.rs
@@ -81,9 +81,17 @@ impl FunctionInfo {
 }
 
 fn return_type_is_result_inner(rt: &ReturnType, result_types: &[String]) -> bool {
-    if let ReturnType::Type(_, t) = rt
-        && let Type::Path(TypePath { path, .. }) = t.deref()
-    {
+    let ReturnType::Type(_, t) = rt else {
+        return false;
+    };
+
+    // `$t:ty` 経由で渡された型は見えないグループに包まれている
+    let mut t = t.deref();
+    while let Type::Group(group) = t {
+        t = group.elem.deref();
+    }
+
+    if let Type::Path(TypePath { path, .. }) = t {
         result_types.iter().any(|s| path_is_end_of(path, s))
     } else {
         false
-- 
2.43.0


From db0328145b440cf5da4929fe03805c150174eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 15/17] fix: keep the grouping of expressions that come through
 a macro fragment

---
 hooq-macros/src/impls/mod.rs               |  5 ++-
 hooq-macros/src/impls/utils/mod.rs         |  1 +
 hooq-macros/src/impls/utils/ungroup.rs     | 36 ++++++++++++++++++++++
 hooq-macros/src/impls/walker/walk_macro.rs | 13 +++++---
 4 files changed, 50 insertions(+), 5 deletions(-)
 create mode 100644 hooq-macros/src/impls/utils/ungroup.rs

diff --git a/hooq-macros/src/impls/mod.rs b/hooq-macros/src/impls/mod.rs
index c0ed8ba..2db57d7 100644
--- a/hooq-macros/src/impls/mod.rs
+++ b/hooq-macros/src/impls/mod.rs
@@ -4,6 +4,7 @@ use syn::Item;
 
 use crate::impls::inert_attr::context::HookContext;
 use crate::impls::root_attr::{RootAttribute, RootContext};
+use crate::impls::utils::ungroup::ungroup_item;
 
 pub mod flavor;
 pub mod inert_attr;
@@ -12,12 +13,14 @@ pub mod root_attr;
 pub mod utils;
 mod walker;
 
-pub fn hooq_impls(root_attr: TokenStream, mut item: Item) -> syn::Result<TokenStream> {
+pub fn hooq_impls(root_attr: TokenStream, item: Item) -> syn::Result<TokenStream> {
     let root_attr: RootAttribute = syn::parse2(root_attr)?;
     let root_context = RootContext::load(root_attr)?;
     let trait_use_paths = root_context.trait_uses_token_stream();
     let context = HookContext::new(root_context);
 
+    let mut item = ungroup_item(item);
+
     walker::walk_item(&mut item, &context)?;
 
     Ok(quote! {
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index e2bf711..17bfc06 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -7,6 +7,7 @@ pub mod get_hooq_crate_name;
 mod source_excerpt;
 pub mod source_excerpt_macros;
 pub mod unexpected_error_message;
+pub mod ungroup;
 
 pub use get_hooq_crate_name::get_source_excerpt_helpers_name_space;
 
diff --git a/hooq-macros/src/impls/utils/ungroup.rs b/hooq-macros/src/impls/utils/ungroup.rs
new file mode 100644
index 0000000..beb3b39
--- /dev/null
+++ b/hooq-macros/src/impls/utils/ungroup.rs
@@ -0,0 +1,36 @@
+use syn::fold::{Fold, fold_expr};
+use syn::{Expr, ExprParen, Item, Stmt};
+
+struct Ungroup;
+
+impl Fold for Ungroup {
+    fn fold_expr(&mut self, expr: Expr) -> Expr {
+        match fold_expr(self, expr) {
+            Expr::Group(group) if group.attrs.is_empty() => *group.expr,
+            Expr::Group(group) => Expr::Paren(ExprParen {
+                attrs: group.attrs,
+                paren_token: Default::default(),
+                expr: group.expr,
+            }),
+            expr => expr,
+        }
+    }
+}
+
+// NOTE:
+// `macro_rules!` の `$e:expr` は見えないグループとして渡されるが、
+// proc macro が出力した見えないグループを rustc は無視するため、
+// そのまま出力すると `$e * 2` ($e = 1 + 2) が `1 + 2 * 2` になってしまう
+// 構文木からグループを取り除いておけば、必要な括弧は出力時に syn が補ってくれる
+
+pub fn ungroup_item(item: Item) -> Item {
+    Ungroup.fold_item(item)
+}
+
+pub fn ungroup_expr(expr: Expr) -> Expr {
+    Ungroup.fold_expr(expr)
+}
+
+pub fn ungroup_stmt(stmt: Stmt) -> Stmt {
+    Ungroup.fold_stmt(stmt)
+}
diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..ec6156b 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -5,6 +5,7 @@ use syn::parse::discouraged::Speculative;
 use syn::{Attribute, Macro, Token};
 
 use crate::impls::inert_attr::context::HookContext;
+use crate::impls::utils::ungroup::{ungroup_expr, ungroup_item, ungroup_stmt};
 use crate::impls::walker::{
     HandleInertAttrsResult, handle_inert_attrs, walk_expr, walk_item, walk_stmt,
 };
@@ -49,20 +50,24 @@ fn handle_token_stream(
                 Evaluable::File(file) => file
                     .items
                     .into_iter()
-                    .map(|mut item| {
+                    .map(|item| {
+                        let mut item = ungroup_item(item);
                         walk_item(&mut item, context)?;
                         Ok(item.into_token_stream())
                     })
                     .collect::<syn::Result<_>>()?,
-                Evaluable::Expr(mut expr) => {
+                Evaluable::Expr(expr) => {
+                    let mut expr = ungroup_expr(expr);
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
                 }
-                Evaluable::Item(mut item) => {
+                Evaluable::Item(item) => {
+                    let mut item = ungroup_item(item);
                     walk_item(&mut item, context)?;
                     item.into_token_stream()
                 }
-                Evaluable::Stmt(mut stmt) => {
+                Evaluable::Stmt(stmt) => {
+                    let mut stmt = ungroup_stmt(stmt);
                     // マクロ内の最後の TailExpr であったとしても、
                     // これを TailExprTargetKind::*TailExpr としてみなそうとすると
                     // 考え方が煩雑になるので諦める
-- 
2.43.0


From 61d72a1bca42d22a5fea6aa168d2c4a595a59ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 16/17] fix: keep the attributes of a ? that a method consumes

---
 hooq-macros/src/impls/walker/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 492ded0..aff3b1a 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -428,7 +428,16 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
 
                 match exc {
                     // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    Some(_) => {
+                        let mut new_expr = *expr_try.expr.clone();
+
+                        // `#[cfg(...)]` など ? に付いていた属性は残す
+                        if let Some(attrs) = get_attrs_from_expr(&mut new_expr) {
+                            attrs.splice(0..0, expr_try.attrs.drain(..));
+                        }
+
+                        Some(new_expr)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From 4927952d00de14550823ec5383ad68d798710edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 17/17] fix: report a $ that nothing follows in a method

---
 hooq-macros/src/impls/method/render/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 26bde32..639ffbd 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -108,6 +108,7 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_dollar_span = q_span;
 
         for tt in ts.into_iter() {
             match tt {
@@ -117,7 +118,10 @@ impl HookInfo<'_> {
                     }
 
                     match punct.as_char() {
-                        '$' => next_is_replace_target = true,
+                        '$' => {
+                            next_is_replace_target = true;
+                            last_dollar_span = punct.span();
+                        }
                         _ => res.extend([TokenTree::Punct(punct)]),
                     }
                 }
@@ -165,6 +169,14 @@ impl HookInfo<'_> {
             }
         }
 
+        // 末尾の `$` は黙って捨てずにエラーとする
+        if next_is_replace_target {
+            return Err(syn::Error::new(
+                last_dollar_span,
+                "expected a meta variable or a binding name after `$`",
+            ));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0

