From 5f5a2a012af53b24e38ce9e8f45623b6bf48db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:22 +0000
Subject: [PATCH 01/64] fix: clamp LSP positions past the end of a line and
 reject positions inside characters

Columns past the end of the last line produced offsets outside the document,
and the server crashed on them (hover, completion, signature help, actions).
---
 crates/lsp-server/src/translator/from_lsp.rs | 24 +++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..bd4076a 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -31,7 +31,29 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    // Columns past the end of the line default back to the end of the line.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let line_start = context.line_index.offset(LineCol {
+        line: line_col.line,
+        col: 0,
+    })?;
+    let line_end = line_col
+        .line
+        .checked_add(1)
+        .and_then(|next_line| {
+            context.line_index.offset(LineCol {
+                line: next_line,
+                col: 0,
+            })
+        })
+        .map(|next_line_start| next_line_start - ink_analyzer::TextSize::from(1))
+        .unwrap_or_else(|| context.line_index.len());
+    let offset = line_start
+        .checked_add(line_col.col.into())
+        .map_or(line_end, |offset| offset.min(line_end));
+
+    // Positions inside a multi-byte character are invalid.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 0eac3afc9555d07a3210c310d03d219de57eec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:01 +0000
Subject: [PATCH 02/64] fix: don't terminate the server on malformed
 notification parameters

---
 crates/lsp-server/src/dispatch.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..1e6ce4d 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -187,17 +187,25 @@ impl<'a> Dispatcher<'a> {
     pub fn handle_notification(&mut self, not: lsp_server::Notification) -> anyhow::Result<()> {
         // Routes notification to appropriate handler (if any).
         let mut router = NotificationRouter::new(not, &mut self.memory);
-        router
+        let result = router
             .process::<lsp_types::notification::DidOpenTextDocument>(
                 handlers::notification::handle_did_open_text_document,
-            )?
-            .process::<lsp_types::notification::DidChangeTextDocument>(
-                handlers::notification::handle_did_change_text_document,
-            )?
-            .process::<lsp_types::notification::DidCloseTextDocument>(
-                handlers::notification::handle_did_close_text_document,
-            )?
-            .finish();
+            )
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidChangeTextDocument>(
+                    handlers::notification::handle_did_change_text_document,
+                )
+            })
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidCloseTextDocument>(
+                    handlers::notification::handle_did_close_text_document,
+                )
+            })
+            .map(NotificationRouter::finish);
+        // Invalid notifications are ignored (i.e. they shouldn't terminate the server).
+        if let Err(error) = result {
+            eprintln!("Failed to process notification: {error}");
+        }
 
         // Process memory changes (if any) made by notification handlers.
         self.process_changes()?;
-- 
2.43.0


From fe74d984a423cfd07b440e668399ca6a5d0987a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 03/64] fix: reject inverted and out-of-range text ranges in
 the extractEvent command

---
 crates/lsp-server/src/dispatch/handlers/command.rs |  1 +
 crates/lsp-server/src/dispatch/handlers/request.rs | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..1211e87 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -150,6 +150,7 @@ pub fn handle_extract_event(
     // Retrieves snapshot and computes extraction.
     let Some((extraction, snapshot)) = snapshots
         .get(&id)
+        .filter(|snapshot| range.end() <= snapshot.context.line_index.len())
         .and_then(|snapshot| snapshot.analysis.extract(range).zip(Some(snapshot)))
     else {
         return Err(anyhow::format_err!("Failed to extract ink! event."));
diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..01093d9 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,12 +322,13 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
-        .map(|(start, end)| {
-            ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
-            )
+        .and_then(|(start, end)| {
+            u32::try_from(start)
+                .ok()
+                .zip(u32::try_from(end).ok())
+                .filter(|(start, end)| start <= end)
         })
+        .map(|(start, end)| ink_analyzer::TextRange::new(start.into(), end.into()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From b9a7083154cf5a547ce5e70d08425f84d09debe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:11 +0000
Subject: [PATCH 04/64] fix: only treat trait paths with a leading `::` as full
 paths in selectors

---
 crates/ir/src/selector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..6c070cc 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -118,9 +118,10 @@ impl Selector {
         match callable.parent_impl_item()?.trait_()? {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
+                // Only paths with a leading `::` (i.e. `::path::to::Trait`) are full paths.
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .first_segment()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
                     let mut full_path = trait_path.to_string();
                     full_path.retain(|c| !c.is_whitespace());
-- 
2.43.0


From fdc1b8cd8b07b044988b944e4be75b96b5f7e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:11 +0000
Subject: [PATCH 05/64] fix: accept digit separators in integer attribute
 argument values

---
 crates/ir/src/attrs/meta/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..17d5756 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -159,7 +159,8 @@ impl MetaValue {
         T: IsIntId,
     {
         if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
+            // Digit separators (i.e. `_`) have no effect on the value (e.g. `0xDEAD_BEEF`).
+            let value = self.to_string().replace('_', "");
             if value.starts_with("0x") {
                 // Parse as hex.
                 T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-- 
2.43.0


From 111b8e49a08c18d2ac6404773588bdb21aa037b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:21 +0000
Subject: [PATCH 06/64] fix: read string attribute argument values as Rust
 string literals

---
 crates/ir/src/attrs/meta/value.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 17d5756..8fa3875 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -184,14 +184,13 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        let ast::Expr::Literal(literal) = self.expr.as_ref()? else {
+            return None;
+        };
+        // Parses string value (handles quotes, raw strings and escapes).
+        ast::String::cast(literal.token())?
+            .value()
+            .map(|value| value.into_owned())
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From bfc2ee092ecda9f4dcf54180b9a96d9c5dd58511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:22 +0000
Subject: [PATCH 07/64] fix: validate arguments of a sibling ink! attribute
 macro against that macro

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..12b88e5 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1084,6 +1084,14 @@ fn validate_entity_attributes(
                 });
             } else {
                 // Handle argument level conflicts if the top level attribute kind doesn't conflict.
+                // Arguments of a valid sibling ink! attribute macro (e.g. `scale_derive` for `storage_item` in ink! v5)
+                // are validated against that macro, not the primary attribute.
+                let valid_attr_args = match attr.kind() {
+                    InkAttributeKind::Macro(_) if is_valid_sibling_attr() => {
+                        utils::valid_sibling_ink_args(*attr.kind(), version)
+                    }
+                    _ => valid_sibling_args.clone(),
+                };
                 for arg in attr.args() {
                     // Checks if this arg kind is the same as the one being used by the attribute,
                     // which is already known to not be conflicting (or at least not deserving of flagging)
@@ -1093,7 +1101,7 @@ fn validate_entity_attributes(
                     // Ignore arg if it's already been handled at attribute level or
                     // reported as deprecated.
                     if !is_attr_kind
-                        && !valid_sibling_args.contains(arg.kind())
+                        && !valid_attr_args.contains(arg.kind())
                         && !is_already_reported_as_deprecated(arg)
                     {
                         // Edit range for quickfix.
-- 
2.43.0


From 9cb455d0cae1a4d15c54dbcd4650c1a94a428752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:20 +0000
Subject: [PATCH 08/64] fix: resolve paths through nested modules

---
 crates/ir/src/tree/ast_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..339d8f6 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -188,7 +188,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
-- 
2.43.0


From 00f4ecce0fe59e40fa2092898bb3eb878d289261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:28 +0000
Subject: [PATCH 09/64] fix: terminate path resolution on cyclic use
 declarations and type aliases

---
 crates/analyzer/src/resolution.rs | 68 +++++++++++++++++++------
 crates/ir/src/tree/ast_ext.rs     | 82 ++++++++++++++++++-------------
 2 files changed, 102 insertions(+), 48 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..cbb70f1 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,18 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_impl(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// See `is_external_crate_item` doc.
+// NOTE: `visited_aliases` guards against cyclic type aliases (e.g. `type A = self::B; type B = self::A;`).
+fn is_external_crate_item_impl(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    visited_aliases: &mut HashSet<SyntaxNode>,
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +115,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut HashSet::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -206,17 +218,24 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
+            let mut path_is_type_alias_for_name = || {
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        visited_aliases.insert(type_alias.syntax().clone())
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_impl(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        visited_aliases,
+                                    )
+                                })
                     },
                 )
             };
@@ -304,9 +323,12 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 }
 
 // Collects crate use paths and aliases in the current scope.
+// NOTE: `active_paths` are the paths (and the nodes they're relative to) being matched,
+// it guards against cyclic use declarations and aliases (e.g. `use self::a::*; mod a { use super::*; }`).
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active_paths: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +341,8 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result =
+            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, active_paths);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +358,12 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result = match_path_to_external_crate_in_scope(
+                &item_path_str,
+                crates,
+                ref_node,
+                active_paths,
+            );
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,9 +383,17 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active_paths: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+
+    // Only continue if the path isn't already being matched.
+    let active_key = (path.to_owned(), ref_node.clone());
+    if !active_paths.insert(active_key.clone()) {
+        return (use_paths, item_aliases);
+    }
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +413,8 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result =
+                external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, active_paths);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -392,13 +429,12 @@ fn match_path_to_external_crate_in_scope(
                     } else {
                         item_aliases.insert(target_name.clone(), resolved_path_str);
                     }
-                } else if resolved_path_str != path {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
+                } else {
                     let result = match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        active_paths,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +443,8 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    active_paths.remove(&active_key);
+
     (use_paths, item_aliases)
 }
 
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 339d8f6..a61e678 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -1,5 +1,6 @@
 //! AST traversal utilities.
 
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::iter::once;
 
@@ -103,11 +104,34 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
     }};
 }
 
+// Paths (and the nodes they're relative to) that a resolution already went through.
+// NOTE: Guards against cyclic use declarations and aliases (e.g. `use self::a as b; use self::b as a;`).
+type VisitedPaths = RefCell<HashSet<(String, SyntaxNode)>>;
+
 /// Returns the AST item referenced by the path (if any).
 pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_impl(path, ref_node, &VisitedPaths::default())
+}
+
+fn resolve_item_impl<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &VisitedPaths,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    // Only continue if the path hasn't been visited already.
+    if !visited
+        .borrow_mut()
+        .insert((path_to_string(path), ref_node.clone()))
+    {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -134,33 +158,15 @@ where
         };
         let resolve_from_module_use_scope = || {
             let item_name = target_name.to_string();
-            resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
-                    } else {
-                        None
-                    }
-                },
-            )
+            resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node)
+                .find_map(|resolved_path| resolve_item_impl(&resolved_path, &root_node, visited))
         };
         let resolve_from_ref_item_use_scope = || {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
-                resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node).find_map(
-                    |resolved_path| {
-                        // Only recurse if the path resolved from use scope and aliases
-                        // is different from the current path argument.
-                        if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
-                        } else {
-                            None
-                        }
-                    },
-                )
+                resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node)
+                    .find_map(|resolved_path| resolve_item_impl(&resolved_path, ref_node, visited))
             } else {
                 None
             }
@@ -185,6 +191,20 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_impl(path, ref_node, &VisitedPaths::default())
+}
+
+fn resolve_qualifier_impl(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &VisitedPaths,
+) -> Option<SyntaxNode> {
+    // Only continue if the path hasn't been visited already.
+    let visited_key = (path_to_string(path), ref_node.clone());
+    if !visited.borrow_mut().insert(visited_key.clone()) {
+        return None;
+    }
+
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
@@ -197,17 +217,8 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
         };
         let resolve_from_use_scope = || {
             let item_name = name.to_string();
-            resolve_item_path_from_use_scope_and_aliases!(item_name, root).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
-                    } else {
-                        None
-                    }
-                },
-            )
+            resolve_item_path_from_use_scope_and_aliases!(item_name, root)
+                .find_map(|resolved_path| resolve_qualifier_impl(&resolved_path, root, visited))
         };
         resolve_child().or_else(resolve_from_use_scope)
     };
@@ -258,6 +269,11 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
             .and_then(|name| resolve_next_child_module(&name, node));
     }
 
+    // Resolved paths can be revisited (e.g. by the remaining segments of another path).
+    if resolution_root_option.is_some() {
+        visited.borrow_mut().remove(&visited_key);
+    }
+
     resolution_root_option
 }
 
-- 
2.43.0


From b03ee7c95c9979199f5463107b213630facd7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:57 +0000
Subject: [PATCH 10/64] fix: consider all derive attributes when checking for
 SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 90 ++++++++-----------
 1 file changed, 35 insertions(+), 55 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 12b88e5..38c8e3a 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -2006,52 +2006,39 @@ pub fn ensure_impl_scale_codec_traits(
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
-                    .syntax()
-                    .children()
-                    .filter_map(|node| {
-                        let is_after_derive = || {
-                            node.first_token()
-                                .and_then(|token| {
-                                    ink_analyzer_ir::closest_non_trivia_token(
-                                        &token,
-                                        SyntaxToken::prev_token,
-                                    )
-                                })
-                                .is_some_and(|token| token.text() == "derive")
-                        };
-                        if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                            ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
-                        } else {
-                            None
-                        }
-                    })
-                    .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+    // Extracts derive item paths from all standalone and conditional derive attributes.
+    let derived_items: Vec<_> = adt
+        .attrs()
+        .filter_map(|attr| attr.path().zip(attr.token_tree()))
+        .flat_map(|(path, token_tree)| match path.to_string().trim() {
+            "derive" => vec![utils::token_tree_to_non_delimited_meta_string(&token_tree)],
+            "cfg_attr" => token_tree
+                .syntax()
+                .children()
+                .filter_map(|node| {
+                    let is_after_derive = || {
+                        node.first_token()
+                            .and_then(|token| {
+                                ink_analyzer_ir::closest_non_trivia_token(
+                                    &token,
+                                    SyntaxToken::prev_token,
+                                )
+                            })
+                            .is_some_and(|token| token.text() == "derive")
+                    };
+                    if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
+                        ast::TokenTree::cast(node)
+                            .as_ref()
+                            .map(utils::token_tree_to_non_delimited_meta_string)
+                    } else {
+                        None
+                    }
+                })
+                .collect(),
+            _ => Vec::new(),
+        })
+        .flat_map(|meta| meta_to_path_list(&meta))
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2082,15 +2069,8 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
-- 
2.43.0


From 10c888c69536621ccd7d18d8f70e7c36b0840f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 11/64] fix: keep existing items when extending a derive
 attribute with SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 38c8e3a..3fb15c8 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1999,13 +1999,6 @@ pub fn ensure_impl_scale_codec_traits(
             .collect::<Vec<_>>()
     };
 
-    // Standalone derive attribute meta item string (if any).
-    let standalone_derive_meta = standalone_derive_attr
-        .as_ref()
-        .and_then(ast::Attr::token_tree)
-        .as_ref()
-        .map(utils::token_tree_to_non_delimited_meta_string);
-
     // Extracts derive item paths from all standalone and conditional derive attributes.
     let derived_items: Vec<_> = adt
         .attrs()
@@ -2141,8 +2134,13 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                // Keeps existing derive items.
+                let meta_prefix = attr
+                    .token_tree()
+                    .as_ref()
+                    .map(utils::token_tree_to_non_delimited_meta_string)
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2151,10 +2149,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From 02e0b01b569a30ebbaa033257829f7c515266b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 12/64] fix: don't panic on completions whose insert offset is
 outside the attribute

---
 crates/analyzer/src/analysis/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..8681a9d 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -756,6 +756,10 @@ pub fn ink_arg_insert_text(
         parent_attr_option
             .map(InkAttribute::syntax)
             .zip(insert_offset_option)
+            // The insert offset can be outside the parent attribute (e.g. for incomplete attributes).
+            .filter(|(parent_node, insert_offset)| {
+                parent_node.text_range().contains_inclusive(*insert_offset)
+            })
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
                     .token_at_offset(insert_offset)
-- 
2.43.0


From e2596f840bf791996bec760ca647ed3d8b3fe233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 13/64] fix: only parse a trailing token tree as a nested meta
 item

---
 crates/ir/src/attrs/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index eb51a59..d102ac3 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -84,8 +84,14 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                     .collect();
                 let value: Vec<_> = arg_tokens.collect();
 
+                // Nested meta items always come last (i.e. after the name, and without an `=` symbol).
+                let is_nested_tt_last = eq.is_none()
+                    && name
+                        .iter()
+                        .rfind(|elem| !elem.kind().is_trivia())
+                        .is_some_and(|elem| elem.kind() == SyntaxKind::TOKEN_TREE);
                 let mut nested_meta = None;
-                if n_nested_tts == 1 {
+                if n_nested_tts == 1 && is_nested_tt_last {
                     if let Some(nested_token_tree) = nested_token_tree {
                         let nested_meta_items = parse_meta_items(&nested_token_tree);
                         // At the moment, ink! syntax (specifically v5) only nests a single meta item.
-- 
2.43.0


From 894f9f7ee42b362a072d8667f6497600f820a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:29 +0000
Subject: [PATCH 14/64] fix: keep migration edits from overlapping

---
 crates/analyzer/src/analysis/migrate.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..1cd47d6 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -12,7 +12,7 @@ use itertools::Itertools;
 use std::collections::HashMap;
 
 use super::{utils, TextEdit};
-use crate::analysis::text_edit::format_edits;
+use crate::analysis::text_edit::format_edit;
 use crate::resolution;
 
 /// Computes text edits for migrating an ink! file to ink! 5.0.
@@ -35,7 +35,25 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test::migrate(&mut results, file);
 
     // Format and return edits.
-    format_edits(results.into_iter().unique(), file).collect()
+    let edits: Vec<_> = results.into_iter().unique().collect();
+    edits
+        .iter()
+        .map(|edit| {
+            let formatted_edit = format_edit(edit.clone(), file);
+            // Whitespace removed after a deleted item mustn't include the target of another edit.
+            let is_conflicting = formatted_edit.range.end() > edit.range.end()
+                && edits.iter().any(|other| {
+                    other != edit
+                        && edit.range.end() <= other.range.start()
+                        && other.range.start() < formatted_edit.range.end()
+                });
+            if is_conflicting {
+                edit.clone()
+            } else {
+                formatted_edit
+            }
+        })
+        .collect()
 }
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
-- 
2.43.0


From 5505e2e9c795820a5fbb6d238d7f18fa7a0f010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:58 +0000
Subject: [PATCH 15/64] fix: include nested meta items' delimiters in attribute
 argument ranges

---
 crates/analyzer/src/analysis/utils.rs |  2 +-
 crates/ir/src/attrs/meta.rs           | 26 ++++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 8681a9d..187daf0 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1588,7 +1588,7 @@ pub fn ink_arg_and_delimiter_removal_range(
                 .option()
                 .and_then(|result| match result {
                     Ok(name) => Some(name.syntax().clone()),
-                    Err(elements) => elements.last().and_then(|elem| match elem {
+                    Err(elements) => elements.first().and_then(|elem| match elem {
                         SyntaxElement::Node(node) => node.first_token(),
                         SyntaxElement::Token(token) => Some(token.clone()),
                     }),
diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..7983c46 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -119,6 +119,21 @@ impl MetaNameValue {
         self.nested.as_ref().map(Box::as_ref)
     }
 
+    /// Returns the token tree (i.e. including the delimiters) of the nested meta item (if any).
+    fn nested_token_tree(&self) -> Option<ast::TokenTree> {
+        let nested = self.nested()?;
+        match nested.elements().next() {
+            Some(elem) => closest_ancestor_ast_type(&elem),
+            None => nested
+                .parent_tt
+                .as_ref()?
+                .syntax()
+                .children()
+                .filter_map(ast::TokenTree::cast)
+                .find(|token_tree| token_tree.syntax().text_range().start() == nested.start),
+        }
+    }
+
     /// Returns the text range of meta item.
     pub fn text_range(&self) -> TextRange {
         let mut start: Option<TextSize> = None;
@@ -158,7 +173,11 @@ impl MetaNameValue {
 
         // Parse start and end from nested meta item.
         if let Some(nested_meta) = &self.nested {
-            update_start_and_end(nested_meta.text_range());
+            update_start_and_end(
+                self.nested_token_tree()
+                    .map(|token_tree| token_tree.syntax().text_range())
+                    .unwrap_or_else(|| nested_meta.text_range()),
+            );
         }
 
         // Parse start and end from value field.
@@ -215,7 +234,10 @@ impl MetaNameValue {
         }
 
         if let Some(nested) = &self.nested {
-            elems.extend(nested.elements());
+            match self.nested_token_tree() {
+                Some(token_tree) => elems.push(SyntaxElement::from(token_tree.syntax().clone())),
+                None => elems.extend(nested.elements()),
+            }
         }
 
         elems
-- 
2.43.0


From 2d9f05a4ce5bb1745eaa0cc6ac275526881c5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:29 +0000
Subject: [PATCH 16/64] fix: keep the semicolon when removing a trait
 function's body

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 3fb15c8..2d20aba 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1688,7 +1688,10 @@ pub fn ensure_trait_item_invariants<F, G>(
                                     label: "Remove function body.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: body.syntax().text_range(),
-                                    edits: vec![TextEdit::delete(body.syntax().text_range())],
+                                    edits: vec![TextEdit::replace(
+                                        ";".to_owned(),
+                                        body.syntax().text_range(),
+                                    )],
                                 }
                             ]),
                         });
-- 
2.43.0


From 6fdcd9a86b7d9434bd3586fd83ac2b271cb47650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:29 +0000
Subject: [PATCH 17/64] fix: only move functions, and only to inherent impl
 blocks

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 2d20aba..17184d8 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1738,6 +1738,9 @@ pub fn ensure_impl_parent<T>(item: &T, ink_scope_name: &str) -> Option<Diagnosti
 where
     T: HasInkImplParent,
 {
+    // Callables can only be moved to inherent `impl` blocks, and only `fn` items can be moved at all.
+    let is_movable = ast::Fn::can_cast(item.syntax().kind());
+    let is_inherent_impl = |impl_item: &ast::Impl| impl_item.trait_().is_none();
     item.parent_impl_item().is_none().then(|| Diagnostic {
         message: format!("ink! {ink_scope_name} must be defined in the root of an `impl` block."),
         range: item.syntax().text_range(),
@@ -1745,14 +1748,17 @@ where
         quickfixes: ink_analyzer_ir::closest_ancestor_ast_type::<SyntaxNode, ast::Impl>(
             item.syntax(),
         )
+        .filter(is_inherent_impl)
         .or_else(|| {
             item.syntax()
                 .siblings(ink_analyzer_ir::syntax::Direction::Prev)
-                .find_map(ast::Impl::cast)
+                .filter_map(ast::Impl::cast)
+                .find(is_inherent_impl)
                 .or_else(|| {
                     item.syntax()
                         .siblings(ink_analyzer_ir::syntax::Direction::Next)
-                        .find_map(ast::Impl::cast)
+                        .filter_map(ast::Impl::cast)
+                        .find(is_inherent_impl)
                 })
         })
         .as_ref()
@@ -1784,7 +1790,8 @@ where
                         },
                     )
                 })
-        }),
+        })
+        .filter(|_| is_movable),
     })
 }
 
-- 
2.43.0


From 1bcd3b815ed5e400e6deca6d1f03b744e51f466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:52 +0000
Subject: [PATCH 18/64] fix: don't repeat parentheses when completing the ink
 attribute name

Completing the name in `#[ink(message)]` on an item with other ink!
attributes gave `#[ink()(message)]`.
---
 crates/analyzer/src/analysis/completions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index ef011da..c3712f5 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -247,7 +247,12 @@ pub fn macro_completions(
                     // the next token right after the `[` delimiter.
                     let focused_token_prefix = item_at_offset.focused_token_prefix();
                     let ink_path_suggestions = if has_other_ink_siblings {
-                        vec![("ink()", Some("ink($1)"), "ink! attribute")]
+                        if attr.token_tree().is_none() {
+                            vec![("ink()", Some("ink($1)"), "ink! attribute")]
+                        } else {
+                            // Arguments (and/or their delimiters) are already present.
+                            vec![("ink", None, "ink! attribute")]
+                        }
                     } else {
                         vec![
                             ("ink", None, "ink! attribute macro"),
-- 
2.43.0


From 0e1fe8831599f07fceee31d11934ade37aeea16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:58 +0000
Subject: [PATCH 19/64] fix: insert topic fields where a field can be inserted

The action could insert the field after the struct, after a field without a
comma, or with a name in a tuple struct.
---
 .../analyzer/src/analysis/actions/entity.rs   |  9 +++++++--
 .../analyzer/src/analysis/text_edit/common.rs | 14 ++++++++++++-
 crates/analyzer/src/analysis/utils.rs         | 20 +++++++++++++++++++
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..2f0188a 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -87,11 +87,16 @@ where
 {
     event.struct_item().and_then(|struct_item| {
         // Sets insert offset or defaults to inserting at the end of the field list (if possible).
+        let field_list = struct_item.field_list();
         range_option
+            .filter(|range| {
+                field_list
+                    .as_ref()
+                    .is_some_and(|it| utils::is_valid_field_insert_range(it, *range))
+            })
             .map(|offset| (offset, None, None))
             .or_else(|| {
-                struct_item
-                    .field_list()
+                field_list
                     .as_ref()
                     .map(utils::field_insert_offset_end_and_affixes)
                     .map(|(offset, prefix, suffix)| {
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..202d63f 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -172,7 +172,19 @@ pub fn add_topic(
                 .filter_map(|field| field.name().as_ref().map(ToString::to_string))
         })
         .collect();
-    let (text, snippet) = unique_text_and_snippet(TOPIC_PLAIN, TOPIC_SNIPPET, "my_topic", &names);
+    let is_tuple = matches!(
+        struct_item.field_list(),
+        Some(ast::FieldList::TupleFieldList(_))
+    );
+    let (text, snippet) = if is_tuple {
+        // Fields of tuple structs have no names.
+        (
+            TOPIC_PLAIN.replace("my_topic: ", ""),
+            TOPIC_SNIPPET.replace("${1:my_topic}: ${2:bool}", "${1:bool}"),
+        )
+    } else {
+        unique_text_and_snippet(TOPIC_PLAIN, TOPIC_SNIPPET, "my_topic", &names)
+    };
 
     TextEdit::replace_with_snippet(
         format!(
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 187daf0..6686c09 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1777,6 +1777,26 @@ pub fn field_insert_offset_start_and_affixes(
     }
 }
 
+/// Returns true if a field can be inserted at the range without affixes,
+/// (i.e. the range is inside the field list and directly follows the opening delimiter or a comma).
+pub fn is_valid_field_insert_range(field_list: &ast::FieldList, range: TextRange) -> bool {
+    let is_delimiter = |token: &SyntaxToken| {
+        token.parent().as_ref() == Some(field_list.syntax())
+            && matches!(
+                token.kind(),
+                SyntaxKind::L_CURLY | SyntaxKind::L_PAREN | SyntaxKind::COMMA
+            )
+    };
+    field_list.syntax().text_range().contains_range(range)
+        && field_list
+            .syntax()
+            .descendants_with_tokens()
+            .filter_map(|it| it.into_token())
+            .filter(|it| !it.kind().is_trivia() && it.text_range().start() < range.start())
+            .last()
+            .is_some_and(|it| is_delimiter(&it) && it.text_range().end() <= range.start())
+}
+
 /// Returns the offset for the end of a field list and affixes (prefix and suffix).
 pub fn field_insert_offset_end_and_affixes(
     field_list: &ast::FieldList,
-- 
2.43.0


From 4942be7a87459fa03883d099297934b4173623c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:58 +0000
Subject: [PATCH 20/64] fix: only add the crate-level attribute with a contract
 before all items

The contract action and completion inserted an inner attribute in the middle
of the file.
---
 .../analyzer/src/analysis/actions/entity.rs   |  3 +-
 crates/analyzer/src/analysis/actions/item.rs  |  1 +
 crates/analyzer/src/analysis/completions.rs   |  2 +-
 .../analyzer/src/analysis/text_edit/common.rs | 28 +++++++++++++++----
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 2f0188a..715112e 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -494,6 +494,7 @@ pub fn add_ink_e2e_test(
 
 /// Add an ink! contract `mod`.
 pub fn add_contract(
+    file: &InkFile,
     range: TextRange,
     kind: ActionKind,
     indent_option: Option<&str>,
@@ -503,7 +504,7 @@ pub fn add_contract(
         label: "Add ink! contract `mod`.".to_owned(),
         kind,
         range,
-        edits: vec![text_edit::add_contract(range, indent_option, version)],
+        edits: vec![text_edit::add_contract(file, range, indent_option, version)],
     }
 }
 
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index e3b75b7..a4b1e7c 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -613,6 +613,7 @@ fn root_ink_entity_actions(
     if file.contracts().is_empty() {
         // Adds ink! contract.
         results.push(entity::add_contract(
+            file,
             range,
             ActionKind::Refactor,
             None,
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index c3712f5..06d7a72 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -855,7 +855,7 @@ pub fn entity_completions(
             results.push(Completion {
                 label: "#[ink::contract]..mod contract {...}".to_owned(),
                 range,
-                edit: text_edit::add_contract(range, None, version),
+                edit: text_edit::add_contract(file, range, None, version),
                 detail: Some("ink! contract".to_owned()),
                 kind: CompletionKind::Mod,
             });
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 202d63f..8c78247 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -73,19 +73,37 @@ macro_rules! mod_item_names {
 }
 
 /// Creates text edit for ink! contract.
-pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
+pub fn add_contract(
+    file: &InkFile,
+    range: TextRange,
+    indent: Option<&str>,
+    version: Version,
+) -> TextEdit {
+    // Inner attributes are only valid before all items,
+    // so the crate-level attribute is only included when inserting at the beginning of the file.
+    let is_after_items = file
+        .syntax()
+        .children()
+        .any(|it| ast::Item::can_cast(it.kind()) && it.text_range().start() < range.start());
+    let contract_text = |text: &'static str| {
+        if is_after_items {
+            text.find("#[ink::contract]").map_or(text, |idx| &text[idx..])
+        } else {
+            text
+        }
+    };
     text_edit_with_indent(
-        if version == Version::V5 {
+        contract_text(if version == Version::V5 {
             CONTRACT_PLAIN_V5
         } else {
             CONTRACT_PLAIN
-        },
+        }),
         range,
-        Some(if version == Version::V5 {
+        Some(contract_text(if version == Version::V5 {
             CONTRACT_SNIPPET_V5
         } else {
             CONTRACT_SNIPPET
-        }),
+        })),
         indent,
     )
 }
-- 
2.43.0


From da34964cae58a1c6dd161282b46e248aedc3f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 21/64] fix: don't suggest ink! arguments where the enclosing
 ink! item allows none

---
 crates/analyzer/src/analysis/utils.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 6686c09..ee399e4 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -628,17 +628,13 @@ pub fn remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
     attr_parent: &SyntaxNode,
     version: Version,
 ) {
-    let parent_ink_scope_valid_ink_args: Vec<InkArgKind> =
-        ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent)
+    let mut ink_ancestors = ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent).peekable();
+    // Filters out invalid arguments for the parent ink! scope (if any).
+    if ink_ancestors.peek().is_some() {
+        let parent_ink_scope_valid_ink_args: Vec<InkArgKind> = ink_ancestors
             .flat_map(|attr| valid_quasi_direct_descendant_ink_args(*attr.kind(), version))
             .collect();
-
-    // Filters out invalid arguments for the parent ink! scope (if any).
-    if !parent_ink_scope_valid_ink_args.is_empty() {
-        suggestions.retain(|arg_kind| {
-            parent_ink_scope_valid_ink_args.is_empty()
-                || parent_ink_scope_valid_ink_args.contains(arg_kind)
-        });
+        suggestions.retain(|arg_kind| parent_ink_scope_valid_ink_args.contains(arg_kind));
     }
 }
 
-- 
2.43.0


From d4a938e47e752b8aff4c44c7296ac062e6b65df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:45 +0000
Subject: [PATCH 22/64] fix: don't suggest namespace for trait impl blocks

---
 crates/analyzer/src/analysis/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index ee399e4..6591eb4 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -639,7 +639,8 @@ pub fn remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
 }
 
 /// Filters out duplicate, conflicting and invalidly scoped ink! arguments.
-/// (See [`remove_duplicate_ink_arg_suggestions`], [`remove_conflicting_ink_arg_suggestions`] and
+/// (See [`remove_duplicate_ink_arg_suggestions`], [`remove_conflicting_ink_arg_suggestions`],
+/// [`remove_invalid_ink_arg_suggestions_for_parent_item`] and
 /// [`remove_invalid_ink_arg_suggestions_for_parent_ink_scope`] docs).
 pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
     suggestions: &mut Vec<InkArgKind>,
@@ -653,6 +654,9 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
         // Filters out conflicting ink! attribute argument actions.
         remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
 
+        // Filters out invalid (based on parent item's invariants) ink! attribute argument actions.
+        remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
+
         // Filters out invalid (based on parent ink! scope) ink! attribute argument actions,
         // Doesn't apply to ink! attribute macros as their arguments are not influenced by the parent scope.
         if let InkAttributeKind::Arg(_) = ink_attr.kind() {
-- 
2.43.0


From ae7e9a65cc133f0fa32993e00090a738cc7767ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 23/64] fix: don't suggest an ink! macro's arguments for other
 attributes

---
 crates/analyzer/src/analysis/utils.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 6591eb4..db4f5b1 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -648,6 +648,16 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
     version: Version,
 ) {
     if let Some(attr_parent) = ink_attr.syntax().parent() {
+        // Arguments of an ink! attribute macro can only be added to the macro's own attribute.
+        if let InkAttributeKind::Arg(_) = ink_attr.kind() {
+            let has_macro = ink_analyzer_ir::ink_attrs(&attr_parent).any(|attr| {
+                matches!(attr.kind(), InkAttributeKind::Macro(kind) if *kind != InkMacroKind::Unknown)
+            });
+            if has_macro {
+                suggestions.clear();
+            }
+        }
+
         // Filters out duplicate ink! attribute argument suggestions.
         remove_duplicate_ink_arg_suggestions(suggestions, &attr_parent);
 
-- 
2.43.0


From f893662d77e03f5f0c8a8fffb4ddc3d9d355ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 24/64] fix: look past qualifiers and other attributes for the
 item of an unclosed attribute

---
 crates/ir/src/tree/item_at_offset.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/tree/item_at_offset.rs b/crates/ir/src/tree/item_at_offset.rs
index 0f71e4f..64ae0c7 100644
--- a/crates/ir/src/tree/item_at_offset.rs
+++ b/crates/ir/src/tree/item_at_offset.rs
@@ -180,11 +180,23 @@ impl ItemAtOffset {
                                     | SyntaxKind::IMPL_KW
                             )
                         },
-                        // We only continue searching if the current token is either trivia, punctuation or the `pub` keyword.
+                        // We only continue searching if the current token is either trivia, punctuation,
+                        // part of a visibility, an item qualifier or part of another attribute.
                         |subject| {
                             !subject.kind().is_trivia()
                                 && !subject.kind().is_punct()
-                                && subject.kind() != SyntaxKind::PUB_KW
+                                && !matches!(
+                                    subject.kind(),
+                                    SyntaxKind::PUB_KW
+                                        | SyntaxKind::CRATE_KW
+                                        | SyntaxKind::ASYNC_KW
+                                        | SyntaxKind::CONST_KW
+                                        | SyntaxKind::UNSAFE_KW
+                                )
+                                && ast_ext::closest_ancestor_ast_type::<SyntaxToken, ast::Attr>(
+                                    subject,
+                                )
+                                .map_or(true, |other| other.syntax() == attr.syntax())
                         },
                     )
                     .map(|keyword| {
-- 
2.43.0


From 0792979a21fe0b73f6897b36e60923514d1480dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 25/64] fix: don't suggest ink! attributes for items that can't
 be annotated with them

---
 crates/analyzer/src/analysis/completions.rs |  9 +++++++--
 crates/analyzer/src/analysis/utils.rs       | 13 +++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 06d7a72..77645cc 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -139,7 +139,9 @@ pub fn macro_completions(
                         // Handles the case where the AST item type is unknown.
                         None => {
                             // Returns all valid ink! attribute macro suggestions if focused token is part of an ink! path segment.
-                            if focused_token_is_in_ink_crate_path_segment {
+                            if focused_token_is_in_ink_crate_path_segment
+                                && !utils::is_applied_to_known_item(&attr)
+                            {
                                 if version == Version::V5 {
                                     vec![
                                         InkMacroKind::ChainExtension,
@@ -374,7 +376,10 @@ pub fn argument_completions(
                                 // Returns all attribute arguments that don't require a macro
                                 // if the AST item type is unknown.
                                 None => {
-                                    if version == Version::V5 {
+                                    if utils::is_applied_to_known_item(ink_attr.ast()) {
+                                        // The item can't be annotated with ink! attribute arguments.
+                                        Vec::new()
+                                    } else if version == Version::V5 {
                                         vec![
                                             InkArgKind::Anonymous,
                                             InkArgKind::Constructor,
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index db4f5b1..5785a00 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -730,6 +730,19 @@ pub fn remove_invalid_ink_macro_suggestions_for_parent_cfg_scope(
     }
 }
 
+/// Returns true if the attribute is closed and applied to an item or field,
+/// (i.e. the kind of syntax node that it's applied to isn't in doubt).
+pub fn is_applied_to_known_item(attr: &ast::Attr) -> bool {
+    attr.r_brack_token().is_some()
+        && attr.syntax().parent().is_some_and(|parent| {
+            ast::Item::can_cast(parent.kind())
+                || matches!(
+                    parent.kind(),
+                    SyntaxKind::RECORD_FIELD | SyntaxKind::TUPLE_FIELD | SyntaxKind::VARIANT
+                )
+        })
+}
+
 /// Returns true if the attribute is a conditional compilation flag for test builds.
 pub fn is_cfg_test_attr(attr: &ast::Attr) -> bool {
     attr.path()
-- 
2.43.0


From 081ff716ea1361ab4d10ce8f558e6597e72ceb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 26/64] fix: only defer code action edits if codeAction/resolve
 is advertised

---
 crates/lsp-server/src/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 9b4086b..7a4ea70 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -80,6 +80,8 @@ pub fn code_action_edit_resolve_support(client_capabilities: &ClientCapabilities
         .and_then(|it| it.resolve_support.as_ref())
         .map(|it| it.properties.contains(&String::from("edit")))
         .unwrap_or(false)
+        // The server only advertises `codeAction/resolve` together with the code action kinds.
+        && code_actions_kinds(client_capabilities).is_some()
 }
 
 /// Information about supported signature information features.
-- 
2.43.0


From f0e04775ca35f97b48a8eeb000d521864bcc79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 27/64] fix: only resolve event extraction edits if the client
 can create files

---
 .../src/dispatch/handlers/request.rs          |  7 +++-
 crates/lsp-server/src/utils.rs                | 38 +++++++++++++------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 01093d9..603ced6 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -104,10 +104,15 @@ pub fn handle_code_action(
                     .actions(text_range)
                     .into_iter()
                     .filter_map(|action| {
+                        // Event extraction edits create files.
+                        let edit_resolve_support =
+                            utils::code_action_edit_resolve_support(client_capabilities)
+                                && (action.kind != ink_analyzer::ActionKind::Extract
+                                    || utils::create_resource_edit_support(client_capabilities));
                         translator::to_lsp::code_action(
                             action,
                             uri.clone(),
-                            utils::code_action_edit_resolve_support(client_capabilities),
+                            edit_resolve_support,
                             &snapshot.context,
                         )
                         .map(Into::into)
diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 7a4ea70..ceaf0b4 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -121,20 +121,34 @@ pub fn request_id_as_str(id: RequestId) -> Option<String> {
         .map(ToString::to_string)
 }
 
+/// Returns true if the LSP client advertises support for `workspace/applyEdit` requests, or false otherwise.
+pub fn apply_edit_support(client_capabilities: &ClientCapabilities) -> bool {
+    client_capabilities
+        .workspace
+        .as_ref()
+        .and_then(|it| it.apply_edit)
+        .unwrap_or(false)
+}
+
+/// Returns true if the LSP client advertises support for workspace edits that create resources, or false otherwise.
+pub fn create_resource_edit_support(client_capabilities: &ClientCapabilities) -> bool {
+    client_capabilities
+        .workspace
+        .as_ref()
+        .and_then(|it| it.workspace_edit.as_ref())
+        .is_some_and(|it| {
+            // Checks support for versioned document changes.
+            it.document_changes.unwrap_or(false)
+                // Checks support for create file operation.
+                && it.resource_operations.as_ref().is_some_and(|it| {
+                    it.contains(&lsp_types::ResourceOperationKind::Create)
+                })
+        })
+}
+
 /// Returns true if the LSP client advertises capabilities for creating workspace resources.
 pub fn can_create_workspace_resources(client_capabilities: &ClientCapabilities) -> bool {
-    client_capabilities.workspace.as_ref().is_some_and(|it| {
-        // Checks support for workspace/applyEdit requests.
-        it.apply_edit.unwrap_or(false)
-            && it.workspace_edit.as_ref().is_some_and(|it| {
-                // Checks support for versioned document changes.
-                it.document_changes.unwrap_or(false)
-                    // Checks support for create file operation.
-                    && it.resource_operations.as_ref().is_some_and(|it| {
-                        it.contains(&lsp_types::ResourceOperationKind::Create)
-                    })
-            })
-    })
+    apply_edit_support(client_capabilities) && create_resource_edit_support(client_capabilities)
 }
 
 /// Find the `Cargo.toml` file for a given `*.rs` file (if any).
-- 
2.43.0


From 3a93abddec9f9b530145ff6c891e0830c19df4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 28/64] fix: only request the migration edit if the client
 supports it

---
 crates/lsp-server/src/dispatch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 1e6ce4d..9ff3096 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -344,8 +344,11 @@ impl<'a> Dispatcher<'a> {
                     };
                     (id, params)
                 })
-        } else if cmd == COMMAND_MIGRATE_PROJECT {
-            // Convert `migrateProject` response into a workspace edit.
+        } else if cmd == COMMAND_MIGRATE_PROJECT
+            && utils::apply_edit_support(&self.client_capabilities)
+        {
+            // Convert `migrateProject` response into a workspace edit
+            // (only if the client supports workspace edit requests).
             resp.result
                 .as_ref()
                 .and_then(|value| {
-- 
2.43.0


From 360766363d5452255dd68f2229899f5362d76dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 29/64] fix: advertise the extract code action kind

---
 crates/lsp-server/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index ceaf0b4..858f6a3 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -10,10 +10,11 @@ pub const COMMAND_CREATE_PROJECT: &str = "createProject";
 pub const COMMAND_MIGRATE_PROJECT: &str = "migrateProject";
 pub const COMMAND_EXTRACT_EVENT: &str = "extractEvent";
 
-const SERVER_CODE_ACTION_KINDS: [CodeActionKind; 4] = [
+const SERVER_CODE_ACTION_KINDS: [CodeActionKind; 5] = [
     CodeActionKind::EMPTY,
     CodeActionKind::QUICKFIX,
     CodeActionKind::REFACTOR,
+    CodeActionKind::REFACTOR_EXTRACT,
     CodeActionKind::REFACTOR_REWRITE,
 ];
 
-- 
2.43.0


From 20cb4606e2a30435ccaf4b18067b04b57236e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:58 +0000
Subject: [PATCH 30/64] fix: insert items after inner attributes and doc
 comments

---
 crates/analyzer/src/analysis/actions/item.rs | 21 ++++++-----
 crates/analyzer/src/analysis/completions.rs  |  9 +++++
 crates/analyzer/src/analysis/utils.rs        | 38 ++++++++++++++++++--
 3 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index a4b1e7c..5b61fc2 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -94,7 +94,13 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                             item_ink_entity_actions(
                                 results,
                                 &ast_item,
-                                is_focused_on_body.then(focused_elem_edit_range),
+                                is_focused_on_body
+                                    .then(focused_elem_edit_range)
+                                    // Items can only be inserted after inner attributes.
+                                    .filter(|edit_range| {
+                                        utils::inner_attrs_end(ast_item.syntax())
+                                            .map_or(true, |end| end <= edit_range.start())
+                                    }),
                                 version,
                             );
                         }
@@ -105,14 +111,13 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                         let is_in_file_root = focused_elem
                             .parent()
                             .is_some_and(|it| it.kind() == SyntaxKind::SOURCE_FILE);
-                        if is_in_file_root {
+                        let edit_range = focused_elem_edit_range();
+                        // Items can only be inserted after inner attributes.
+                        let is_after_inner_attrs = utils::inner_attrs_end(file.syntax())
+                            .map_or(true, |end| end <= edit_range.start());
+                        if is_in_file_root && is_after_inner_attrs {
                             // Suggests root-level ink! entities based on the context.
-                            root_ink_entity_actions(
-                                results,
-                                file,
-                                focused_elem_edit_range(),
-                                version,
-                            );
+                            root_ink_entity_actions(results, file, edit_range, version);
                         }
                     }
                 }
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 77645cc..cb62ffc 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -501,6 +501,15 @@ pub fn entity_completions(
         return;
     }
 
+    // Bail if the offset is before inner attributes because items can only be inserted after them.
+    if focused_token
+        .parent()
+        .and_then(|parent| utils::inner_attrs_end(&parent))
+        .is_some_and(|end| offset < end)
+    {
+        return;
+    }
+
     let normalized_focused_text = if focused_token.kind().is_trivia() {
         ""
     } else {
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 5785a00..2e69d75 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1650,6 +1650,32 @@ pub fn ink_arg_and_delimiter_removal_range(
     )
 }
 
+/// Returns the end offset of the last inner attribute or inner doc comment (if any) of an item
+/// or item list (child items can only be inserted after it).
+pub fn inner_attrs_end(node: &SyntaxNode) -> Option<TextSize> {
+    node.children_with_tokens()
+        .chain(
+            node.children()
+                .filter(|child| {
+                    matches!(
+                        child.kind(),
+                        SyntaxKind::ITEM_LIST | SyntaxKind::ASSOC_ITEM_LIST
+                    )
+                })
+                .flat_map(|child| child.children_with_tokens()),
+        )
+        .filter(|elem| match elem {
+            SyntaxElement::Node(node) => {
+                ast::Attr::cast(node.clone()).is_some_and(|attr| attr.excl_token().is_some())
+            }
+            SyntaxElement::Token(token) => {
+                ast::Comment::cast(token.clone()).is_some_and(|comment| comment.is_inner())
+            }
+        })
+        .last()
+        .map(|elem| elem.text_range().end())
+}
+
 /// Returns the offset for the beginning of an item list (e.g body of an AST item - i.e `mod` e.t.c).
 pub fn item_insert_offset_start(item_list: &ast::ItemList) -> TextSize {
     item_list
@@ -1658,6 +1684,8 @@ pub fn item_insert_offset_start(item_list: &ast::ItemList) -> TextSize {
         .filter(|it| matches!(it, ast::Item::Use(_)))
         .last()
         .map(|it| it.syntax().text_range().end())
+        // Determines position after inner attributes and doc comments (if any).
+        .or_else(|| inner_attrs_end(item_list.syntax()))
         // Determines position after the left curly bracket.
         .or_else(|| item_list.l_curly_token().map(|it| it.text_range().end()))
         // Defaults to inserts before the first item in the item list.
@@ -1740,9 +1768,13 @@ pub fn item_insert_offset_by_scope_name(
 
 /// Returns the offset for the beginning of an associated item list (e.g body of an AST item - i.e `fn`, `trait` e.t.c).
 pub fn assoc_item_insert_offset_start(assoc_item_list: &ast::AssocItemList) -> TextSize {
-    assoc_item_list
-        .l_curly_token()
-        .map(|it| it.text_range().end())
+    // Determines position after inner attributes and doc comments (if any).
+    inner_attrs_end(assoc_item_list.syntax())
+        .or_else(|| {
+            assoc_item_list
+                .l_curly_token()
+                .map(|it| it.text_range().end())
+        })
         .or_else(|| {
             assoc_item_list
                 .assoc_items()
-- 
2.43.0


From 6390a6496d0f320ef1b8e5806e376c65683a1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:31 +0000
Subject: [PATCH 31/64] fix: extract events from selections in their fields'
 attributes

---
 crates/analyzer/src/analysis/extract.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/extract.rs b/crates/analyzer/src/analysis/extract.rs
index 31fcd8e..0f84d57 100644
--- a/crates/analyzer/src/analysis/extract.rs
+++ b/crates/analyzer/src/analysis/extract.rs
@@ -32,9 +32,12 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
         if ast::Struct::can_cast(elem.kind()) {
             elem.into_node().and_then(ast::Struct::cast)
         } else {
-            ink_analyzer_ir::parent_ast_item(&elem).and_then(|item| match item {
-                ast::Item::Struct(struct_item) => Some(struct_item),
-                _ => None,
+            // The focused element can be part of an attribute of the `struct` or of one of its fields.
+            ink_analyzer_ir::closest_ancestor_ast_type::<_, ast::Item>(&elem).and_then(|item| {
+                match item {
+                    ast::Item::Struct(struct_item) => Some(struct_item),
+                    _ => None,
+                }
             })
         }
     });
-- 
2.43.0


From ad0f9b4a8e6b4c79b8c3bdb3a042021f37f588e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:22 +0000
Subject: [PATCH 32/64] fix: keep project names that contain the template's
 contract name intact

---
 crates/analyzer/src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index 617e5b7..ba18f75 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -73,16 +73,16 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
             } else {
                 CONTRACT_PLAIN
             }
-            .replace("my_contract", &module_name)
-            .replace("MyContract", &struct_name),
+            .replace("MyContract", &struct_name)
+            .replace("my_contract", &module_name),
             snippet: Some(
                 if version == Version::V5 {
                     CONTRACT_SNIPPET_V5
                 } else {
                     CONTRACT_SNIPPET
                 }
-                .replace("my_contract", &module_name)
-                .replace("MyContract", &struct_name),
+                .replace("MyContract", &struct_name)
+                .replace("my_contract", &module_name),
             ),
         },
         // Generates `Cargo.toml`.
-- 
2.43.0


From aac9d7e6522ed033e04393ff51e438a124bf49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:22 +0000
Subject: [PATCH 33/64] fix: reject project names that don't give Rust
 identifiers

---
 crates/analyzer/src/codegen.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index ba18f75..2762fb8 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -2,6 +2,8 @@
 
 pub mod snippets;
 
+use ink_analyzer_ir::syntax::SourceFile;
+
 use crate::codegen::snippets::{
     CARGO_TOML_PLAIN_V5, CARGO_TOML_SNIPPET_V5, CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5,
 };
@@ -64,6 +66,11 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
     let module_name = name.replace('-', "_");
     let struct_name = utils::pascal_case(&module_name);
 
+    // Validates that the generated names are Rust identifiers (e.g. not keywords).
+    if !is_identifier(&module_name) || !is_identifier(&struct_name) {
+        return Err(Error::ContractName);
+    }
+
     // Returns project code stubs/snippets.
     Ok(Project {
         // Generates `lib.rs`.
@@ -105,6 +112,19 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
     })
 }
 
+/// Returns true if the name (i.e. alphanumeric characters and underscores) is a valid Rust identifier.
+pub fn is_identifier(name: &str) -> bool {
+    // Keywords reserved for future use aren't known to the parser.
+    // Ref: <https://doc.rust-lang.org/reference/keywords.html#reserved-keywords>.
+    const RESERVED_KEYWORDS: [&str; 8] = [
+        "abstract", "become", "final", "override", "priv", "typeof", "unsized", "virtual",
+    ];
+    !RESERVED_KEYWORDS.contains(&name)
+        && SourceFile::parse(&format!("mod {name} {{}}"))
+            .errors()
+            .is_empty()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 7bcd2bdf2f8e47ce89934e5c5b12757ce52c1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 34/64] fix: extract events into packages with unique, usable
 names

---
 crates/analyzer/src/lib.rs                    |  2 +-
 .../src/dispatch/handlers/command.rs          | 41 ++++++++++++++++---
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/lib.rs b/crates/analyzer/src/lib.rs
index 4638988..d3c54cb 100644
--- a/crates/analyzer/src/lib.rs
+++ b/crates/analyzer/src/lib.rs
@@ -76,7 +76,7 @@ pub use self::{
         Action, ActionKind, Analysis, Completion, CompletionKind, Diagnostic, Hover, InlayHint,
         Severity, SignatureHelp, TextEdit,
     },
-    codegen::{new_project, Error, Project, ProjectFile},
+    codegen::{is_identifier, new_project, Error, Project, ProjectFile},
 };
 pub use ink_analyzer_ir::{
     syntax::{TextRange, TextSize},
diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 1211e87..3e546c1 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -163,9 +163,16 @@ pub fn handle_extract_event(
         ));
     };
 
+    let Ok(contract_cargo_toml) = fs::read_to_string(&cargo_path) else {
+        return Err(anyhow::format_err!(
+            "Failed to extract ink! event.\nCouldn't read `Cargo.toml` file."
+        ));
+    };
+
     // Creates names and uris for new event package.
     // See `package_name` doc for difference btn `event_package_name` and `event_crate_name`.
-    let (event_package_name, event_crate_name) = package_name(&extraction.name)?;
+    let (event_package_name, event_crate_name) =
+        unique_package_name(&extraction.name, &contract_cargo_toml)?;
     let mut event_package_path = cargo_path.clone();
     event_package_path.pop();
     let mut event_package_dir = event_package_name.clone();
@@ -231,11 +238,6 @@ pub fn handle_extract_event(
         .collect();
 
     // Computes edits for contract's `Cargo.toml` file.
-    let Ok(contract_cargo_toml) = fs::read_to_string(&cargo_path) else {
-        return Err(anyhow::format_err!(
-            "Failed to extract ink! event.\nCouldn't read `Cargo.toml` file."
-        ));
-    };
     let Ok(cargo_uri) = lsp_types::Url::from_file_path(cargo_path) else {
         return Err(anyhow::format_err!(
             "Failed to extract ink! event.\nCouldn't convert `Cargo.toml` path into a URI."
@@ -450,6 +452,33 @@ fn package_name(name: &str) -> anyhow::Result<(String, String)> {
     Ok((name, crate_name))
 }
 
+/// Converts the given item name into a valid Rust package name (see [`package_name`]),
+/// that can be used in Rust paths (i.e. it's not a keyword),
+/// and that isn't the name of an existing dependency in the `Cargo.toml` file.
+fn unique_package_name(name: &str, cargo_toml: &str) -> anyhow::Result<(String, String)> {
+    let (name, _) = package_name(name)?;
+    let doc = cargo_toml.parse::<toml_edit::DocumentMut>()?;
+    let dependency_exists = |crate_name: &str| {
+        ["dependencies", "dev-dependencies", "build-dependencies"]
+            .iter()
+            .filter_map(|key| doc.get(key).and_then(toml_edit::Item::as_table_like))
+            .any(|deps| {
+                deps.iter()
+                    .any(|(dep_name, _)| dep_name.replace('-', "_") == crate_name)
+            })
+    };
+    std::iter::once(name.clone())
+        .chain((1..=10).map(|count| format!("{name}{count}")))
+        .map(|package_name| {
+            let crate_name = package_name.replace('-', "_");
+            (package_name, crate_name)
+        })
+        .find(|(_, crate_name)| {
+            ink_analyzer::is_identifier(crate_name) && !dependency_exists(crate_name)
+        })
+        .ok_or_else(|| anyhow::format_err!("Couldn't find a unique name for the new package."))
+}
+
 impl From<CreateProjectResponse> for lsp_types::DocumentChanges {
     fn from(value: CreateProjectResponse) -> Self {
         let doc_changes = value
-- 
2.43.0


From e59a514c81f58aad254883216a770b5080150e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 35/64] fix: match ink! version requirements exactly

---
 crates/lsp-server/src/dispatch.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 9ff3096..656f607 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -555,8 +555,18 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
-    RE.is_match(text)
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"^\s*(\^|~|>=|>|=)?\s*(\d+)\s*(\.)?").unwrap());
+    // Upper bounds (e.g. `<5.0.0`) are ignored.
+    text.split(',').any(|comparator| {
+        RE.captures(comparator).is_some_and(|captures| {
+            let major: u64 = captures[2].parse().unwrap_or_default();
+            // `>4` excludes all `4.x.x` versions.
+            let is_exclusive =
+                captures.get(1).is_some_and(|op| op.as_str() == ">") && captures.get(3).is_none();
+            major >= if is_exclusive { 4 } else { 5 }
+        })
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From c646060f09a70e713e9ece22401d6a44231aed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:54 +0000
Subject: [PATCH 36/64] fix: find the workspace root of workspace ink!
 dependencies

---
 crates/lsp-server/src/dispatch.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 656f607..2f68cd6 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -440,15 +440,17 @@ fn parse_ink_project_version(doc_uri: &lsp_types::Url) -> Option<InkProjectVersi
                 let is_workspace_dependency =
                     project_version.as_ref().is_some_and(|it| it.workspace);
                 if is_workspace_dependency {
-                    // Finds `Cargo.toml` in workspace root directory (if any).
-                    let mut parent_dir = cargo_toml_path.clone();
-                    parent_dir.pop();
-                    if let Some(workspace_cargo_toml_path) = utils::find_cargo_toml(parent_dir) {
+                    // Finds workspace root `Cargo.toml`
+                    // (i.e. either the package's own `Cargo.toml` or one in a parent directory).
+                    let mut workspace_cargo_toml_path = Some(cargo_toml_path);
+                    while let Some(mut path) = workspace_cargo_toml_path {
                         let workspace_project_version =
-                            parse_ink_project_version_inner(&workspace_cargo_toml_path, true);
+                            parse_ink_project_version_inner(&path, true);
                         if workspace_project_version.is_some() {
                             return workspace_project_version;
                         }
+                        path.pop();
+                        workspace_cargo_toml_path = utils::find_cargo_toml(path);
                     }
                 }
                 return project_version;
-- 
2.43.0


From 53262365067919f91d48156be555b7c92cf4e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 37/64] fix: show the constructor's selector type in split
 attributes

---
 crates/analyzer/src/analysis/inlay_hints.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/inlay_hints.rs b/crates/analyzer/src/analysis/inlay_hints.rs
index c5444a1..15c2b40 100644
--- a/crates/analyzer/src/analysis/inlay_hints.rs
+++ b/crates/analyzer/src/analysis/inlay_hints.rs
@@ -1,6 +1,6 @@
 //! ink! attribute argument inlay hints.
 
-use ink_analyzer_ir::syntax::{AstToken, TextRange, TextSize};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, TextRange, TextSize};
 use ink_analyzer_ir::{InkArg, InkArgKind, InkArgValueKind, InkAttributeKind, InkEntity, InkFile};
 
 use crate::Version;
@@ -54,9 +54,13 @@ pub fn inlay_hints(file: &InkFile, range: Option<TextRange>, version: Version) -
 
     // Iterates over all ink! attributes in the file.
     for attr in file.tree().ink_attrs_in_scope() {
+        // The `constructor` argument may be in another ink! attribute of the same item.
+        let is_constructor = attr.syntax().parent().is_some_and(|item| {
+            ink_analyzer_ir::ink_attrs(&item)
+                .any(|attr| *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor))
+        });
         // Returns inlay hints for all ink! attribute arguments with values in the selection range.
         for arg in attr.args() {
-            let is_constructor = *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor);
             process_inlay_hint(arg, is_constructor);
 
             let mut nested_arg = None;
-- 
2.43.0


From 3c4b7fc90787f1451040f6383bcfb31c37d3ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 38/64] fix: only show attribute signatures that are valid in
 the item's scope

---
 .../analyzer/src/analysis/signature_help.rs   | 49 +++++++++++++------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/crates/analyzer/src/analysis/signature_help.rs b/crates/analyzer/src/analysis/signature_help.rs
index 8792ef6..4bb0b70 100644
--- a/crates/analyzer/src/analysis/signature_help.rs
+++ b/crates/analyzer/src/analysis/signature_help.rs
@@ -1,7 +1,9 @@
 //! ink! attribute signature help.
 
 use ink_analyzer_ir::syntax::{AstNode, TextRange, TextSize};
-use ink_analyzer_ir::{InkArg, InkArgKind, InkArgValueKind, InkAttributeKind, InkEntity, InkFile};
+use ink_analyzer_ir::{
+    InkArg, InkArgKind, InkArgValueKind, InkAttribute, InkAttributeKind, InkEntity, InkFile,
+};
 use itertools::Itertools;
 
 use crate::analysis::utils;
@@ -107,6 +109,7 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                             complementary_signature(
                                 &mut results,
                                 arg_kind,
+                                &ink_attr,
                                 focused_arg,
                                 range,
                                 version,
@@ -118,11 +121,11 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                             // (also accounts for parent scope).
                             let mut possible_args =
                                 utils::valid_ink_args_by_syntax_kind(parent_item_kind, version);
-                            if let Some(attr_parent) = ink_attr
-                                .syntax()
-                                .parent()
-                                .filter(|it| it.kind() == parent_item_kind)
-                            {
+                            // The parent of an unclosed attribute may not be the annotated item.
+                            if let Some(attr_parent) = ink_attr.syntax().parent().filter(|it| {
+                                it.kind() == parent_item_kind
+                                    || ink_attr.ast().r_brack_token().is_some()
+                            }) {
                                 utils::remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
                                     &mut possible_args,
                                     &attr_parent,
@@ -155,7 +158,10 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                                                 InkAttributeKind::Arg(*arg_kind),
                                                 version,
                                             ))
-                                            .filter(|arg_kind| arg_kind.is_entity_type())
+                                            .filter(|arg_kind| {
+                                                arg_kind.is_entity_type()
+                                                    && possible_args.contains(arg_kind)
+                                            })
                                             .collect();
                                         if primary_args.is_empty() {
                                             vec![*arg_kind]
@@ -192,6 +198,7 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                                     complementary_signature(
                                         &mut results,
                                         &possible_arg_kind,
+                                        &ink_attr,
                                         focused_arg,
                                         range,
                                         version,
@@ -345,6 +352,7 @@ fn anchor_signature(
 fn complementary_signature(
     results: &mut Vec<SignatureHelp>,
     arg_kind: &InkArgKind,
+    ink_attr: &InkAttribute,
     focused_arg: Option<&InkArg>,
     range: TextRange,
     version: Version,
@@ -359,21 +367,34 @@ fn complementary_signature(
     }
 
     // Determines the complementary argument's related primary arguments (if any).
-    let mut primary_args = [*arg_kind]
+    let mut primary_args: Vec<InkArgKind> = [*arg_kind]
         .into_iter()
         .chain(utils::valid_sibling_ink_args(
             InkAttributeKind::Arg(*arg_kind),
             version,
         ))
-        .filter(|arg_kind| arg_kind.is_entity_type());
-    if let Some(first_arg) = primary_args.next() {
-        // Computes signature based on the complementary argument's related primary argument(s).
-        for primary_arg in [first_arg].into_iter().chain(primary_args) {
-            anchor_signature(results, &primary_arg, focused_arg, range, version);
+        .filter(|arg_kind| arg_kind.is_entity_type())
+        .collect();
+    // Prefers primary arguments that are valid in the parent ink! scope (if any).
+    if let Some(attr_parent) = ink_attr.syntax().parent() {
+        let mut scoped_primary_args = primary_args.clone();
+        utils::remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
+            &mut scoped_primary_args,
+            &attr_parent,
+            version,
+        );
+        if !scoped_primary_args.is_empty() {
+            primary_args = scoped_primary_args;
         }
-    } else {
+    }
+    if primary_args.is_empty() {
         // Computes signature directly based on only the complementary argument.
         anchor_signature(results, arg_kind, focused_arg, range, version);
+    } else {
+        // Computes signature based on the complementary argument's related primary argument(s).
+        for primary_arg in primary_args {
+            anchor_signature(results, &primary_arg, focused_arg, range, version);
+        }
     }
 }
 
-- 
2.43.0


From 775941ca8d656bed13825b4473498a35fcf6ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 39/64] fix: ignore comments in paths when resolving items

---
 crates/ir/src/tree/ast_ext.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a61e678..9f5b6e2 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -339,9 +339,14 @@ pub fn path_from_type(ty: &ast::Type) -> Option<ast::Path> {
 
 /// Converts a path to a string.
 ///
-/// **NOTE**: Removes whitespace.
+/// **NOTE**: Removes trivia (i.e. whitespace and comments).
 pub fn path_to_string(path: &ast::Path) -> String {
-    remove_whitespace(&path.to_string())
+    path.syntax()
+        .descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .filter(|token| !token.kind().is_trivia())
+        .map(|token| token.text().to_owned())
+        .collect()
 }
 
 // Returns the item list syntax node for the given syntax node.
@@ -386,9 +391,9 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
                 .map(|(sub_path, alias)| {
                     (
                         if sub_path == "self" {
-                            path_prefix.to_string()
+                            path_to_string(&path_prefix)
                         } else {
-                            format!("{path_prefix}::{sub_path}")
+                            format!("{}::{sub_path}", path_to_string(&path_prefix))
                         },
                         alias,
                     )
-- 
2.43.0


From 2cd2db445a5e9cd9f8f1d8d83e4470b60374c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 40/64] fix: ignore comments around attribute argument values

---
 crates/ir/src/attrs/meta/value.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 8fa3875..80c64ed 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,18 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // Ignores leading and trailing trivia (i.e. whitespace and comments).
+            let is_trivia = |elem: &SyntaxElement| elem.kind().is_trivia();
+            let n_leading = elems.iter().take_while(|it| is_trivia(it)).count();
+            let n_trailing = elems[n_leading..]
+                .iter()
+                .rev()
+                .take_while(|it| is_trivia(it))
+                .count();
+            let arg_text = elems[n_leading..elems.len() - n_trailing]
+                .iter()
+                .map(ToString::to_string)
+                .join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
-- 
2.43.0


From ea2e00487ff5e5240907f68124ed2ec4dc9588d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 41/64] fix: ignore whitespace and comments in derived trait
 paths

---
 .../src/analysis/diagnostics/common.rs        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 17184d8..5197bb8 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -2002,8 +2002,19 @@ pub fn ensure_impl_scale_codec_traits(
     });
 
     // Utilities for extracting derive attribute meta items.
+    // NOTE: Ignores trivia (i.e. whitespace and comments).
+    let token_tree_to_meta = |token_tree: &ast::TokenTree| {
+        token_tree
+            .syntax()
+            .descendants_with_tokens()
+            .filter_map(|elem| elem.into_token())
+            .filter(|token| !token.kind().is_trivia())
+            .map(|token| token.text().to_owned())
+            .collect::<String>()
+    };
     let meta_to_path_list = |meta: &str| {
-        meta.replace(' ', "")
+        meta.trim_start_matches('(')
+            .trim_end_matches(')')
             .split(',')
             .filter_map(ink_analyzer_ir::path_from_str)
             .collect::<Vec<_>>()
@@ -2014,7 +2025,7 @@ pub fn ensure_impl_scale_codec_traits(
         .attrs()
         .filter_map(|attr| attr.path().zip(attr.token_tree()))
         .flat_map(|(path, token_tree)| match path.to_string().trim() {
-            "derive" => vec![utils::token_tree_to_non_delimited_meta_string(&token_tree)],
+            "derive" => vec![token_tree_to_meta(&token_tree)],
             "cfg_attr" => token_tree
                 .syntax()
                 .children()
@@ -2030,9 +2041,7 @@ pub fn ensure_impl_scale_codec_traits(
                             .is_some_and(|token| token.text() == "derive")
                     };
                     if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                        ast::TokenTree::cast(node)
-                            .as_ref()
-                            .map(utils::token_tree_to_non_delimited_meta_string)
+                        ast::TokenTree::cast(node).as_ref().map(token_tree_to_meta)
                     } else {
                         None
                     }
-- 
2.43.0


From b75b43f896353c8fb9eea63657b6ee3107b56b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:56 +0000
Subject: [PATCH 42/64] fix: accept whitespace and comments after a trailing
 comma in attribute arguments

---
 crates/ir/src/attrs/parser.rs | 49 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index d102ac3..d102334 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -37,6 +37,17 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
             })
     }
 
+    // Checks if the trivia elements are only preceded by a trailing comma
+    // (e.g. the whitespace in `#[ink(message, )]`).
+    let is_trailing = |trivia: &[SyntaxElement]| {
+        let prev = trivia
+            .first()
+            .and_then(SyntaxElement::prev_sibling_or_token);
+        let next = trivia.last().and_then(SyntaxElement::next_sibling_or_token);
+        prev.is_some_and(|elem| elem.kind() == T![,])
+            && next.is_some_and(|elem| r_paren.is_some() && elem.as_token() == r_paren.as_ref())
+    };
+
     token_tree
         .syntax()
         .children_with_tokens()
@@ -114,23 +125,27 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
 
                 let meta_name = parse_meta_name(&name);
                 let meta_value = parse_meta_value(&value);
-                Some(
-                    if meta_name.is_some()
-                        || eq.is_some()
-                        || meta_value.is_some()
-                        || nested_meta.is_some()
-                    {
-                        MetaNameValue::new(
-                            meta_name,
-                            eq,
-                            meta_value,
-                            nested_meta,
-                            last_separator_offset,
-                        )
-                    } else {
-                        MetaNameValue::empty(last_separator_offset, None, token_tree.clone())
-                    },
-                )
+                if meta_name.is_some()
+                    || eq.is_some()
+                    || meta_value.is_some()
+                    || nested_meta.is_some()
+                {
+                    Some(MetaNameValue::new(
+                        meta_name,
+                        eq,
+                        meta_value,
+                        nested_meta,
+                        last_separator_offset,
+                    ))
+                } else if is_trailing(&name) {
+                    None
+                } else {
+                    Some(MetaNameValue::empty(
+                        last_separator_offset,
+                        None,
+                        token_tree.clone(),
+                    ))
+                }
             }
         })
         .collect()
-- 
2.43.0


From 116ffb321eec6dc74464ee7e5982df48d09ed692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 43/64] fix: report missing trait messages and arguments in
 source order

---
 crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..4757adf 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -516,7 +516,7 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
+        let mut missing_messages = trait_definition.messages().iter().filter_map(|message| {
             // Filters missing messages (with valid names).
             message.fn_item().and_then(|fn_item| {
                 fn_item
@@ -819,6 +819,7 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From 3e2fda6311f82d361954edee4dc5b8b64f379113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 44/64] fix: exclude surrounding trivia from the range of
 invalid argument values

---
 crates/ir/src/attrs/meta.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 7983c46..d5c8cc3 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -147,9 +147,21 @@ impl MetaNameValue {
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
+            // Doesn't include leading and trailing trivia in the range (if possible).
+            let is_non_trivia = |item: &&SyntaxElement| !item.kind().is_trivia();
             Some(TextRange::new(
-                items.first()?.text_range().start(),
-                items.last()?.text_range().end(),
+                items
+                    .iter()
+                    .find(is_non_trivia)
+                    .or(items.first())?
+                    .text_range()
+                    .start(),
+                items
+                    .iter()
+                    .rfind(is_non_trivia)
+                    .or(items.last())?
+                    .text_range()
+                    .end(),
             ))
         };
 
-- 
2.43.0


From 119f425ab43cf6659111f44ec4e63037a6800bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 45/64] fix: accept whitespace and comments in empty attribute
 argument lists

---
 crates/ir/src/attrs/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index d102334..244a8d1 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -37,14 +37,14 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
             })
     }
 
-    // Checks if the trivia elements are only preceded by a trailing comma
-    // (e.g. the whitespace in `#[ink(message, )]`).
+    // Checks if the trivia elements are only preceded by an opening parenthesis or a trailing comma
+    // (e.g. the whitespace in `#[ink::event( )]` and `#[ink(message, )]`).
     let is_trailing = |trivia: &[SyntaxElement]| {
         let prev = trivia
             .first()
             .and_then(SyntaxElement::prev_sibling_or_token);
         let next = trivia.last().and_then(SyntaxElement::next_sibling_or_token);
-        prev.is_some_and(|elem| elem.kind() == T![,])
+        prev.is_some_and(|elem| matches!(elem.kind(), T!['('] | T![,]))
             && next.is_some_and(|elem| r_paren.is_some() && elem.as_token() == r_paren.as_ref())
     };
 
@@ -108,7 +108,15 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                         // At the moment, ink! syntax (specifically v5) only nests a single meta item.
                         if nested_meta_items.len() == 1 {
                             nested_meta = Some(Box::new(nested_meta_items[0].to_owned()));
-                        } else if matches!(nested_token_tree.to_string().as_str(), "(" | "()") {
+                        } else if matches!(
+                            nested_token_tree
+                                .syntax()
+                                .children_with_tokens()
+                                .filter(|elem| !elem.kind().is_trivia())
+                                .join("")
+                                .as_str(),
+                            "(" | "()"
+                        ) {
                             // Handles incomplete nested args.
                             nested_meta = Some(Box::new(MetaNameValue::empty(
                                 nested_token_tree.syntax().text_range().start(),
-- 
2.43.0


From 470f3ff21c9e911ac0d9461d971de8999fd5a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:55 +0000
Subject: [PATCH 46/64] fix: make the order of scale_derive migration edits
 deterministic

---
 crates/analyzer/src/analysis/migrate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 1cd47d6..ee04e45 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,7 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edit;
@@ -170,7 +170,7 @@ fn chain_extensions(results: &mut Vec<TextEdit>, file: &InkFile) {
 fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Mapping from target item (via location/start offset) to scale traits to derive and their insert offset.
     // Used to consolidate scale item traits from multiple attributes into a single new `scale_derive` attribute.
-    let mut scale_items_map: HashMap<TextSize, (TextSize, Vec<InkArgKind>)> = HashMap::new();
+    let mut scale_items_map: BTreeMap<TextSize, (TextSize, Vec<InkArgKind>)> = BTreeMap::new();
     let scale_trait_options: [(&str, &[&str], InkArgKind); 3] = [
         ("Encode", &resolution::SCALE_QUALIFIERS, InkArgKind::Encode),
         ("Decode", &resolution::SCALE_QUALIFIERS, InkArgKind::Decode),
-- 
2.43.0


From 3df37aae58d2f9c22306cb74d54ca1f8193a5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:55 +0000
Subject: [PATCH 47/64] fix: don't insert a second comma when adding an
 argument after a trailing comma and whitespace

---
 crates/analyzer/src/analysis/utils.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 2e69d75..b1883ad 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1076,14 +1076,18 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .r_paren_token()
                                     .and_then(|r_paren| {
-                                        r_paren.prev_token().and_then(|penultimate_token| {
-                                            match penultimate_token.kind() {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &r_paren,
+                                            SyntaxToken::prev_token,
+                                        )
+                                        .and_then(
+                                            |penultimate_token| match penultimate_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
                                                 // Adds a comma if the token before the right parenthesis is
                                                 // neither a comma nor the left parenthesis.
                                                 _ => Some(", "),
-                                            }
-                                        })
+                                            },
+                                        )
                                     })
                                     .or_else(|| {
                                         token_tree.syntax().last_token().and_then(|last_token| {
@@ -1112,14 +1116,18 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .l_paren_token()
                                     .and_then(|l_paren| {
-                                        l_paren.next_token().and_then(|first_token| {
-                                            match first_token.kind() {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &l_paren,
+                                            SyntaxToken::next_token,
+                                        )
+                                        .and_then(
+                                            |first_token| match first_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::R_PAREN => None,
                                                 // Adds a comma if the token after the left parenthesis is
                                                 // neither a comma nor the right parenthesis.
                                                 _ => Some(", "),
-                                            }
-                                        })
+                                            },
+                                        )
                                     })
                                     .or_else(|| {
                                         token_tree.syntax().first_token().and_then(|first_token| {
-- 
2.43.0


From adcc0e1e39fa6e255f1b8b7f1b9e9fc693ed9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:09 +0000
Subject: [PATCH 48/64] fix: ignore nested whitespace and comments when
 comparing signatures

---
 crates/analyzer/src/analysis/utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index b1883ad..9308e62 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2140,9 +2140,11 @@ where
 /// Compares two node for equality while ignoring trivia (i.e. whitespace and comments).
 pub fn is_trivia_insensitive_eq(a: &SyntaxNode, b: &SyntaxNode) -> bool {
     let strip_trivia = |node: &SyntaxNode| {
-        node.children_with_tokens()
-            .filter(|node| !node.kind().is_trivia())
-            .join("")
+        node.descendants_with_tokens()
+            .filter_map(|elem| elem.into_token())
+            .filter(|token| !token.kind().is_trivia())
+            .map(|token| token.text().to_owned())
+            .collect::<Vec<_>>()
     };
     strip_trivia(a) == strip_trivia(b)
 }
-- 
2.43.0


From 8596f20cc0cfb4bd8f1a1bf0aa84e509e710f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:32 +0000
Subject: [PATCH 49/64] fix: resolve unqualified aliases (e.g. type alias
 chains and crate aliases)

---
 crates/ir/src/tree/ast_ext.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 9f5b6e2..99c4b2d 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -100,7 +100,6 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
                 }
             }))
             .filter_map(|path_str| $crate::path_from_str(&path_str))
-            .filter(|path| path.qualifier().is_some())
     }};
 }
 
-- 
2.43.0


From f0c83bfd99dd690e21ef6ed2dbfdb0e5300fc89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:32 +0000
Subject: [PATCH 50/64] fix: resolve paths with multiple super qualifiers

---
 crates/ir/src/tree/ast_ext.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 99c4b2d..ae0a0be 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -188,6 +188,11 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
         })
 }
 
+// Resolves parent module (if any).
+fn resolve_parent_module(module: &SyntaxNode) -> Option<SyntaxNode> {
+    module.parent().as_ref().and_then(resolve_current_module)
+}
+
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
     resolve_qualifier_impl(path, ref_node, &VisitedPaths::default())
@@ -249,9 +254,7 @@ fn resolve_qualifier_impl(
             // Resolve from parent module.
             resolve_current_module(ref_node)
                 .as_ref()
-                .and_then(SyntaxNode::parent)
-                .as_ref()
-                .and_then(resolve_current_module)
+                .and_then(resolve_parent_module)
         } else {
             resolve_current_module(ref_node)
                 .zip(root_segment.name_ref())
@@ -263,9 +266,14 @@ fn resolve_qualifier_impl(
 
     // Resolves the remaining qualifier segments (if any).
     while let Some((node, segment)) = resolution_root_option.as_ref().zip(path_segments.next()) {
-        resolution_root_option = segment
-            .name_ref()
-            .and_then(|name| resolve_next_child_module(&name, node));
+        resolution_root_option = if segment.super_token().is_some() {
+            // Resolves from parent module (e.g. for `super::super`).
+            resolve_parent_module(node)
+        } else {
+            segment
+                .name_ref()
+                .and_then(|name| resolve_next_child_module(&name, node))
+        };
     }
 
     // Resolved paths can be revisited (e.g. by the remaining segments of another path).
-- 
2.43.0


From 88ab811df6649861c766a9a6db0c655b20bf2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:23 +0000
Subject: [PATCH 51/64] fix: match trait implementations to the type they're
 for, not just its name

---
 .../src/analysis/diagnostics/common.rs        | 20 ++++++++-----------
 crates/analyzer/src/resolution.rs             | 15 ++++++++++----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 5197bb8..2b6e7bb 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1934,12 +1934,12 @@ pub fn ensure_external_trait_impl(
     fix_snippet_option: Option<String>,
 ) -> Option<Diagnostic> {
     // Only continue if the ADT has a name.
-    let name = adt.name()?.to_string();
+    adt.name()?;
 
     // Finds external trait implementation (if any).
     let (trait_name, crate_qualifiers, ref_node) = trait_info;
     let trait_impl =
-        resolution::external_trait_impl_by_name(&name, trait_name, crate_qualifiers, ref_node);
+        resolution::external_trait_impl_for_adt(adt, trait_name, crate_qualifiers, ref_node);
     match trait_impl {
         // Handles no external trait implementation.
         None => {
@@ -2087,16 +2087,12 @@ pub fn ensure_impl_scale_codec_traits(
             };
             // Finds trait implementation for the custom type (if any).
             let is_implemented = || {
-                adt.name()
-                    .as_ref()
-                    .map(ToString::to_string)
-                    .zip(adt.syntax().ancestors().last())
-                    .and_then(|(error_code_name, ref_node)| {
-                        resolution::external_trait_impl_by_name(
-                            &error_code_name,
-                            trait_name,
-                            qualifiers,
-                            &ref_node,
+                adt.syntax()
+                    .ancestors()
+                    .last()
+                    .and_then(|ref_node| {
+                        resolution::external_trait_impl_for_adt(
+                            adt, trait_name, qualifiers, &ref_node,
                         )
                     })
                     .is_some()
diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index cbb70f1..c21ae15 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -56,19 +56,26 @@ pub fn external_trait_impls<'a>(
         })
 }
 
-/// Finds first external trait implementation given an implementation name.
-pub fn external_trait_impl_by_name(
-    impl_name: &str,
+/// Finds first external trait implementation for an ADT (i.e. struct, enum or union).
+pub fn external_trait_impl_for_adt(
+    adt: &ast::Adt,
     trait_name: &str,
     crate_qualifiers: &[&str],
     ref_node: &SyntaxNode,
 ) -> Option<ast::Impl> {
+    let adt_name = adt.name()?.to_string();
     external_trait_impls(trait_name, crate_qualifiers, ref_node).find(|impl_item| {
         impl_item
             .self_ty()
             .as_ref()
             .and_then(ink_analyzer_ir::path_from_type)
-            .is_some_and(|path| is_path_target(impl_name, &path))
+            .is_some_and(|path| {
+                match ink_analyzer_ir::resolve_item::<ast::Adt>(&path, impl_item.syntax()) {
+                    Some(self_adt) => self_adt == *adt,
+                    // Falls back to comparing names if the self type can't be resolved.
+                    None => is_path_target(&adt_name, &path),
+                }
+            })
     })
 }
 
-- 
2.43.0


From 345e5acb602c7a5b06882d156382320117741607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 52/64] fix: recognize traits via qualified paths to re-exports

---
 crates/analyzer/src/resolution.rs | 37 +++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index c21ae15..91d5e57 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -247,10 +247,39 @@ fn is_external_crate_item_impl(
                 )
             };
 
+            // Checks if the path (or one of its qualifiers) is a re-export of an item from one of the crates.
+            let path_is_re_export = || {
+                let is_match = |item_path: &str| {
+                    exhaustive_qualifiers(qualifiers)
+                        .iter()
+                        .any(|qualifier| item_path == format!("{qualifier}::{name}"))
+                };
+                let mut suffix = String::new();
+                iter::successors(Some(path.clone()), ast::Path::qualifier)
+                    .filter(|prefix| prefix.qualifier().is_some())
+                    .any(|prefix| {
+                        let (use_paths, item_aliases) = match_path_to_external_crate_in_scope(
+                            &ink_analyzer_ir::path_to_string(&prefix),
+                            &crates,
+                            &root_node,
+                            &mut HashSet::new(),
+                        );
+                        let is_re_export = use_paths
+                            .iter()
+                            .chain(item_aliases.values())
+                            .any(|item_path| is_match(&format!("{item_path}{suffix}")));
+                        if let Some(segment) = prefix.segment() {
+                            suffix = format!("::{segment}{suffix}");
+                        }
+                        is_re_export
+                    })
+            };
+
             (name_is_path_target
                 && (unqualified_target_name_in_scope() || sub_qualifier_or_alias_in_scope()))
                 || target_is_name_alias()
                 || path_is_type_alias_for_name()
+                || path_is_re_export()
         })
 }
 
@@ -371,11 +400,11 @@ fn external_crate_uses_and_aliases_in_scope(
                 ref_node,
                 active_paths,
             );
+            // NOTE: Aliases are explicit, while use paths may be from glob imports.
             if let Some(resolved_item_path) = result
-                .0
-                .iter()
-                .next()
-                .or_else(|| result.1.get(&target.to_string()))
+                .1
+                .get(&target.to_string())
+                .or_else(|| result.0.iter().sorted().next())
             {
                 item_aliases.insert(alias, resolved_item_path.to_owned());
             }
-- 
2.43.0


From 6ebb409eab22dd64cb592b6d2f635d9567e30ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:17 +0000
Subject: [PATCH 53/64] fix: order modules from the outermost in item paths

---
 crates/analyzer/src/resolution.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 91d5e57..6f14357 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,21 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        let mut modules: Vec<String> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        // Ancestors are ordered innermost first.
+        modules.reverse();
+        iter::once(String::from("crate"))
+            .chain(modules)
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From a4074c48bb3341bcd9de5d84cd62124c3946d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 54/64] fix: don't migrate e2e test signatures that are already
 migrated

---
 crates/analyzer/src/analysis/migrate/e2e_test.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 2cafb28..a201bb6 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
@@ -63,6 +63,11 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
+        // ink! 5.0 e2e test `fn` items are already generic over the client.
+        if fn_item.generic_param_list().is_some() {
+            return;
+        }
+
         // Edit range for `fn` parameter list.
         let range = fn_item
             .param_list()
-- 
2.43.0


From 34133fd8779aa9521f699ffb4cbb73ce4f373d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 55/64] fix: remove an e2e test attribute's arguments if only
 keep_attr is present

---
 crates/analyzer/src/analysis/migrate/e2e_test.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index a201bb6..326e788 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -37,8 +37,7 @@ pub fn migrate(results: &mut Vec<TextEdit>, file: &InkFile) {
 /// Computes text edits for migrating ink! e2e test attributes to ink! 5.0.
 fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if e2e_test.environment_arg().is_none()
-        && (e2e_test.additional_contracts_arg().is_some()
-            || e2e_test.additional_contracts_arg().is_some())
+        && (e2e_test.additional_contracts_arg().is_some() || e2e_test.keep_attr_arg().is_some())
     {
         // Remove all attribute arguments if the ink! e2e attribute has either an
         // `additional_contracts` and/or `keep_attr` argument but no `environment` argument.
-- 
2.43.0


From bdb9e899ef86c003b89d67ef9dca11b9f5380335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 56/64] fix: only replace the ink! attributes of migrated
 events

---
 crates/analyzer/src/analysis/migrate.rs | 35 ++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index ee04e45..6608f41 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -70,17 +70,15 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
             if let Some(ink_attr) = event.ink_attr() {
                 // Replace legacy event with event 2.0.
                 let mut code = event.syntax().to_string();
-                code = code.replace(
-                    &ink_attr.syntax().to_string(),
-                    &format!(
-                        "#[ink::event{}]",
-                        if event.anonymous_arg().is_some() {
-                            "(anonymous)"
-                        } else {
-                            ""
-                        }
-                    ),
-                );
+                let event_start = event.syntax().text_range().start();
+                let mut replacements = vec![(
+                    ink_attr.syntax().text_range(),
+                    if event.anonymous_arg().is_some() {
+                        "#[ink::event(anonymous)]"
+                    } else {
+                        "#[ink::event]"
+                    },
+                )];
 
                 // Remove standalone `anonymous` attribute (if any).
                 if let Some(arg) = event.anonymous_arg() {
@@ -90,11 +88,24 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                         .contains_range(arg.text_range())
                     {
                         if let Some(anonymous_attr) = arg.parent_attr() {
-                            code = code.replace(&anonymous_attr.syntax().to_string(), "");
+                            replacements.push((anonymous_attr.syntax().text_range(), ""));
                         }
                     }
                 }
 
+                // Apply replacements (last one first, so that the remaining ranges stay valid).
+                for (range, replacement) in replacements
+                    .into_iter()
+                    .sorted_by_key(|(range, _)| range.start())
+                    .rev()
+                {
+                    code.replace_range(
+                        usize::from(range.start() - event_start)
+                            ..usize::from(range.end() - event_start),
+                        replacement,
+                    );
+                }
+
                 // Update indenting.
                 if let Some(indent) = utils::item_indenting(event.syntax()) {
                     code = utils::reduce_indenting(&code, &indent);
-- 
2.43.0


From d0dfc1b6e9343877d92f2a9a3b9a53214b7a275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 57/64] fix: migrate calls in conditions, guards, loop
 iterables and let-else blocks

---
 .../src/analysis/migrate/traversal.rs         | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..2ee4ea1 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,10 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    visit_sub_expr_opt!(visitor, arm.guard().and_then(|guard| guard.condition()));
+                    visit_sub_expr_opt!(visitor, arm.expr());
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +102,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,14 +130,19 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
-        let expr = match stmt {
-            ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
-            ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
-            ast::Stmt::Item(_) => None,
-        };
-
-        if let Some(expr) = expr {
-            visitor.visit_expr(&expr);
+        match stmt {
+            ast::Stmt::ExprStmt(expr_stmt) => visit_sub_expr!(visitor, expr_stmt),
+            ast::Stmt::LetStmt(let_stmt) => {
+                visit_sub_expr_opt!(visitor, let_stmt.initializer());
+                let else_block = let_stmt
+                    .let_else()
+                    .as_ref()
+                    .and_then(ast::LetElse::block_expr);
+                if let Some(block) = else_block {
+                    visitor.visit_block(&block);
+                }
+            }
+            ast::Stmt::Item(_) => (),
         }
     }
     let Some(expr) = stmt_list.tail_expr() else {
@@ -152,6 +161,7 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    visit_sub_expr_opt!(visitor, if_expr.condition());
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From fd9756a82afd7b65698ddf58b6805548c84ba757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:41 +0000
Subject: [PATCH 58/64] fix: only migrate method calls on the e2e client

---
 crates/analyzer/src/analysis/migrate/e2e_test.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 326e788..d67212c 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -449,6 +449,7 @@ impl Visitor for BodyVisitor {
             .is_some_and(|receiver| receiver.to_string() == "client");
         if !is_client_receiver {
             walk_method_call(self, expr);
+            return;
         }
 
         let Some(method_name) = expr.name_ref() else {
-- 
2.43.0


From f1656e38ae50c05217c8b9a7a8821680e548d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:50 +0000
Subject: [PATCH 59/64] fix: don't remove the same delimiter twice when
 migrating neighbouring arguments and imports

---
 .../analyzer/src/analysis/migrate/common.rs   | 15 +++++++++-
 .../analyzer/src/analysis/migrate/e2e_test.rs | 28 +++++++++++--------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/common.rs b/crates/analyzer/src/analysis/migrate/common.rs
index d5c72a1..14bccde 100644
--- a/crates/analyzer/src/analysis/migrate/common.rs
+++ b/crates/analyzer/src/analysis/migrate/common.rs
@@ -1,7 +1,7 @@
 //! Utilities for ink! 5.0 migration.
 
 use ink_analyzer_ir::ast;
-use ink_analyzer_ir::syntax::SyntaxNode;
+use ink_analyzer_ir::syntax::{SyntaxNode, TextRange};
 
 use crate::resolution;
 
@@ -26,3 +26,16 @@ pub fn is_call_path(
         last_segment_generic_args(path).and_then(|generic_args| simplify_path(path, &generic_args));
     resolution::is_external_crate_item(name, fn_path.as_ref().unwrap_or(path), qualifiers, ref_node)
 }
+
+/// Trims text ranges to be removed, so that neighbours don't share a delimiter.
+pub fn non_overlapping(mut ranges: Vec<TextRange>) -> Vec<TextRange> {
+    ranges.sort_by_key(|range| (range.start(), range.end()));
+    for idx in 1..ranges.len() {
+        let prev_end = ranges[idx - 1].end();
+        let range = ranges[idx];
+        if range.start() < prev_end {
+            ranges[idx] = TextRange::new(prev_end, range.end().max(prev_end));
+        }
+    }
+    ranges
+}
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index d67212c..1cbe3d2 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -45,17 +45,17 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
             results.push(TextEdit::delete(meta.syntax().text_range()));
         }
     } else {
-        // Remove `additional_contracts` argument (if any).
-        if let Some(arg) = e2e_test.additional_contracts_arg() {
-            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            results.push(TextEdit::delete(range));
-        }
-
-        // Remove `keep_attr` argument (if any).
-        if let Some(arg) = e2e_test.keep_attr_arg() {
-            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            results.push(TextEdit::delete(range));
-        }
+        // Remove `additional_contracts` and `keep_attr` arguments (if any).
+        let ranges = [e2e_test.additional_contracts_arg(), e2e_test.keep_attr_arg()]
+            .iter()
+            .flatten()
+            .map(|arg| utils::ink_arg_and_delimiter_removal_range(arg, None))
+            .collect();
+        results.extend(
+            common::non_overlapping(ranges)
+                .into_iter()
+                .map(TextEdit::delete),
+        );
     }
 }
 
@@ -200,7 +200,11 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
                     if !to_remove.is_empty() {
                         if contains_valid_items {
                             // Remove only the deprecated use tree items.
-                            results.extend(to_remove.into_iter().map(TextEdit::delete))
+                            results.extend(
+                                common::non_overlapping(to_remove)
+                                    .into_iter()
+                                    .map(TextEdit::delete),
+                            );
                         } else {
                             // Remove the parent use item if all use tree items are deprecated.
                             results.push(TextEdit::delete(utils::node_and_delimiter_range(
-- 
2.43.0


From 8ee6515059cd75451f4f00cab72db4d6e81b6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:50 +0000
Subject: [PATCH 60/64] fix: don't import e2e backend traits that are already
 in scope

---
 .../analyzer/src/analysis/migrate/e2e_test.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 1cbe3d2..9f59403 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -1,6 +1,6 @@
 //! ink! 5.0 e2e test migration.
 
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::fmt;
 
 use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
@@ -87,7 +87,7 @@ fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 enum E2ETrait {
     Contracts,
     Chain,
@@ -111,6 +111,18 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
     results.extend(visitor.results);
 
+    // Ignore traits that are already in scope.
+    visitor.required_traits.retain(|e2e_trait| {
+        !ink_analyzer_ir::path_from_str(&format!("{e2e_trait:?}Backend")).is_some_and(|path| {
+            resolution::is_external_crate_item(
+                &format!("{e2e_trait:?}Backend"),
+                &path,
+                &["ink_e2e"],
+                e2e_test.syntax(),
+            )
+        })
+    });
+
     // Add required trait imports (if any).
     if visitor.required_traits.is_empty() {
         return;
@@ -315,14 +327,14 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 struct BodyVisitor {
     results: Vec<TextEdit>,
-    required_traits: HashSet<E2ETrait>,
+    required_traits: BTreeSet<E2ETrait>,
 }
 
 impl BodyVisitor {
     fn new() -> Self {
         Self {
             results: Vec::new(),
-            required_traits: HashSet::new(),
+            required_traits: BTreeSet::new(),
         }
     }
 }
-- 
2.43.0


From c4a770982e2544f9fdcfaaae96b9f74657cf1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:50 +0000
Subject: [PATCH 61/64] fix: don't add instantiate_v1 calls that are already
 present

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..664ee8a 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -146,6 +146,16 @@ impl Visitor for BodyVisitor {
         match host_fn_wrapper_path {
             // Add `.instantiate_v1(..)` to `build_create::<..>(..)`.
             HostFnWrapper::BuildCreate(_) => {
+                let is_migrated = expr
+                    .syntax()
+                    .parent()
+                    .and_then(ast::MethodCallExpr::cast)
+                    .as_ref()
+                    .and_then(ast::MethodCallExpr::name_ref)
+                    .is_some_and(|method_name| method_name.to_string() == "instantiate_v1");
+                if is_migrated {
+                    return;
+                }
                 self.results.push(TextEdit::insert(
                     ".instantiate_v1()".to_owned(),
                     expr.syntax().text_range().end(),
-- 
2.43.0


From 6097eaf33a6ce0768aec2b0c9cb2b86e9624ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:32 +0000
Subject: [PATCH 62/64] fix: migrate calls nested in arguments of migrated
 calls

---
 crates/analyzer/src/analysis/migrate.rs       |   1 +
 .../analyzer/src/analysis/migrate/e2e_test.rs | 123 ++++++++++++++----
 .../analyzer/src/analysis/migrate/host_fn.rs  |  10 +-
 3 files changed, 108 insertions(+), 26 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 6608f41..3fab361 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -234,6 +234,7 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
             for name in utils::token_tree_to_non_delimited_meta_string(&derive_meta)
                 .replace(' ', "")
                 .split(',')
+                .filter(|name| !name.is_empty())
             {
                 if let Some(path) = ink_analyzer_ir::path_from_str(name) {
                     let ref_node = attr
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 9f59403..f162bbd 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -337,6 +337,36 @@ impl BodyVisitor {
             required_traits: BTreeSet::new(),
         }
     }
+
+    /// Returns the migrated text of a sub-expression (or argument list).
+    fn migrated<T: AstNode>(&mut self, node: &T, exprs: impl Iterator<Item = ast::Expr>) -> String {
+        let mut visitor = Self::new();
+        for expr in exprs {
+            visitor.visit_expr(&expr);
+        }
+        self.required_traits.extend(visitor.required_traits);
+
+        let offset = node.syntax().text_range().start();
+        let mut text = node.syntax().to_string();
+        for edit in visitor
+            .results
+            .into_iter()
+            .sorted_by_key(|edit| edit.range.start())
+            .rev()
+        {
+            let range = edit.range - offset;
+            text.replace_range(
+                usize::from(range.start())..usize::from(range.end()),
+                &edit.text,
+            );
+        }
+        text
+    }
+
+    /// Returns the migrated text of an expression.
+    fn migrated_expr(&mut self, expr: &ast::Expr) -> String {
+        self.migrated(expr, std::iter::once(expr.clone()))
+    }
 }
 
 impl Visitor for BodyVisitor {
@@ -376,6 +406,13 @@ impl Visitor for BodyVisitor {
             call_path.syntax().text_range(),
         ));
 
+        // Visit arguments.
+        if let Some(arg_list) = expr.arg_list() {
+            for arg in arg_list.args() {
+                self.visit_expr(&arg);
+            }
+        }
+
         // Replace `.call(|contract| contract.message(..))` with `.message(..)`.
         let Some(chained_call_method) = expr.syntax().parent().and_then(ast::MethodCallExpr::cast)
         else {
@@ -407,15 +444,14 @@ impl Visitor for BodyVisitor {
         let Some(contract_call_name) = contract_call.name_ref() else {
             return;
         };
+        let contract_call_args = contract_call
+            .arg_list()
+            .map(|arg_list| self.migrated(&arg_list, arg_list.args()));
         self.results.push(TextEdit::replace(
             format!(
                 "{}{}",
                 contract_call_name,
-                contract_call
-                    .arg_list()
-                    .as_ref()
-                    .map(ToString::to_string)
-                    .unwrap_or_else(|| "()".to_owned())
+                contract_call_args.as_deref().unwrap_or("()")
             ),
             TextRange::new(
                 chained_call_method_name.syntax().text_range().start(),
@@ -464,10 +500,26 @@ impl Visitor for BodyVisitor {
             })
             .is_some_and(|receiver| receiver.to_string() == "client");
         if !is_client_receiver {
-            walk_method_call(self, expr);
+            if let Some(receiver) = expr.receiver() {
+                self.visit_expr(&receiver);
+            }
+            if let Some(arg_list) = expr.arg_list() {
+                // Arguments of replaced method calls are migrated with the call.
+                let is_replaced = self
+                    .results
+                    .iter()
+                    .any(|edit| edit.range.contains_range(arg_list.syntax().text_range()));
+                if !is_replaced {
+                    for arg in arg_list.args() {
+                        self.visit_expr(&arg);
+                    }
+                }
+            }
             return;
         }
 
+        // Replaced argument lists are migrated with the call.
+        let mut is_args_replaced = false;
         let Some(method_name) = expr.name_ref() else {
             walk_method_call(self, expr);
             return;
@@ -482,13 +534,18 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
+                    is_args_replaced = true;
+                    let contract_name = self.migrated_expr(&contract_name);
+                    let signer = self.migrated_expr(&signer);
+                    let constructor = self.migrated_expr(&constructor);
+                    let value = value_call(self, &value);
+                    let storage_deposit_limit =
+                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
-                            value_call(&value).as_deref().unwrap_or_default(),
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            value.as_deref().unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                             if name == "instantiate_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -508,13 +565,17 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
+                    is_args_replaced = true;
+                    let signer = self.migrated_expr(&signer);
+                    let message = self.migrated_expr(&message);
+                    let value = value_call(self, &value);
+                    let storage_deposit_limit =
+                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
-                            value_call(&value).as_deref().unwrap_or_default(),
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            value.as_deref().unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                             if name == "call_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -533,12 +594,15 @@ impl Visitor for BodyVisitor {
             }
             "upload" => {
                 if let Some((contract_name, signer, storage_deposit_limit)) = args.collect_tuple() {
+                    is_args_replaced = true;
+                    let contract_name = self.migrated_expr(&contract_name);
+                    let signer = self.migrated_expr(&signer);
+                    let storage_deposit_limit =
+                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}){}.submit()",
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                         ),
                         arg_list.syntax().text_range(),
                     ));
@@ -568,8 +632,13 @@ impl Visitor for BodyVisitor {
             }
             _ => (),
         }
+        if !is_args_replaced {
+            for arg in arg_list.args() {
+                self.visit_expr(&arg);
+            }
+        }
 
-        fn value_call(expr: &ast::Expr) -> Option<String> {
+        fn value_call(visitor: &mut BodyVisitor, expr: &ast::Expr) -> Option<String> {
             let mut is_zero = false;
             if let ast::Expr::Literal(ref lit) = expr {
                 if let ast::LiteralKind::IntNumber(int) = lit.kind() {
@@ -578,32 +647,36 @@ impl Visitor for BodyVisitor {
                     }
                 }
             }
-            (!is_zero).then_some(format!(".value({expr})"))
+            (!is_zero).then(|| format!(".value({})", visitor.migrated_expr(expr)))
         }
 
-        fn storage_deposit_limit_call(expr: &ast::Expr) -> Option<String> {
+        fn storage_deposit_limit_call(
+            visitor: &mut BodyVisitor,
+            expr: &ast::Expr,
+        ) -> Option<String> {
             let mut is_none = false;
             if let ast::Expr::PathExpr(ref path) = expr {
                 is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
             }
             (!is_none).then(|| {
-                let mut storage_deposit_limit_value = None;
+                let mut storage_deposit_limit_value = expr.clone();
                 if let ast::Expr::CallExpr(ref call) = expr {
                     if let Some(ast::Expr::PathExpr(path)) = call.expr() {
                         if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
-                            storage_deposit_limit_value = call
+                            if let Some(arg) = call
                                 .arg_list()
                                 .as_ref()
                                 .map(ast::ArgList::args)
                                 .and_then(|mut args| args.next())
-                                .as_ref()
-                                .map(ToString::to_string);
+                            {
+                                storage_deposit_limit_value = arg;
+                            }
                         }
                     }
                 }
                 format!(
                     ".storage_deposit_limit({})",
-                    storage_deposit_limit_value.unwrap_or_else(|| { expr.to_string() })
+                    visitor.migrated_expr(&storage_deposit_limit_value)
                 )
             })
         }
diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 664ee8a..5f952fc 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -1,7 +1,7 @@
 //! ink! 5.0 host function related migrations.
 
 use ink_analyzer_ir::ast;
-use ink_analyzer_ir::ast::AstNode;
+use ink_analyzer_ir::ast::{AstNode, HasArgList};
 use ink_analyzer_ir::syntax::SyntaxNode;
 use ink_analyzer_ir::{InkEntity, InkFile};
 
@@ -142,6 +142,13 @@ impl Visitor for BodyVisitor {
             return;
         };
 
+        // Visit arguments.
+        if let Some(arg_list) = expr.arg_list() {
+            for arg in arg_list.args() {
+                self.visit_expr(&arg);
+            }
+        }
+
         // Migrate host function wrapper APIs.
         match host_fn_wrapper_path {
             // Add `.instantiate_v1(..)` to `build_create::<..>(..)`.
@@ -237,6 +244,7 @@ impl Visitor for BodyVisitor {
             });
         if !is_self_env_call {
             walk_method_call(self, expr);
+            return;
         }
         chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
-- 
2.43.0


From 38530ca302d43659647ae4cdcdf80f9e3cb717ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 63/64] fix: keep migrated manifests valid

---
 .../src/dispatch/handlers/command.rs          | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 3e546c1..bb14840 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -306,7 +306,12 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
     let Some(ink_dep) = deps.get_mut("ink") else {
         return Err(anyhow::format_err!("Failed to parse `Cargo.toml` file."));
     };
+    let is_inherited = ink_dep
+        .as_table_like()
+        .is_some_and(|ink_dep_table| ink_dep_table.contains_key("workspace"));
     let new_ink_dep_value = match ink_dep {
+        // The version of inherited dependencies is set by the workspace.
+        _ if is_inherited => None,
         toml_edit::Item::Table(ink_dep_value) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
             new_ink_dep_value.insert(
@@ -319,7 +324,7 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
                     toml_edit::Item::Value(toml_edit::Value::from(false)),
                 );
             }
-            new_ink_dep_value.into_inline_table()
+            Some(new_ink_dep_value.into_inline_table())
         }
         toml_edit::Item::Value(toml_edit::Value::InlineTable(ink_dep_value)) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
@@ -327,16 +332,18 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
             if !new_ink_dep_value.contains_key("default-features") {
                 new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
             }
-            new_ink_dep_value
+            Some(new_ink_dep_value)
         }
         _ => {
             let mut new_ink_dep_value = toml_edit::InlineTable::new();
             new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
             new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
-            new_ink_dep_value
+            Some(new_ink_dep_value)
         }
     };
-    *ink_dep = toml_edit::Item::Value(toml_edit::Value::InlineTable(new_ink_dep_value));
+    if let Some(new_ink_dep_value) = new_ink_dep_value {
+        *ink_dep = toml_edit::Item::Value(toml_edit::Value::InlineTable(new_ink_dep_value));
+    }
 
     // Remove `scale` and `scale-info` dependencies (if any).
     if let Some(scale_dep) = deps.get_mut("scale") {
@@ -356,18 +363,26 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         }
     }
 
-    // Remove `scale/std` and `scale-info/std` features (if any).
+    // Remove `scale` and `scale-info` features (e.g. `scale/std` and `scale-info/std`, if any).
     if let Some(features) = doc
         .get_mut("features")
         .and_then(toml_edit::Item::as_table_mut)
     {
-        if let Some(std_features) = features
-            .get_mut("std")
-            .and_then(toml_edit::Item::as_array_mut)
-        {
-            std_features.retain(|feature| {
-                !matches!(feature.as_str(), Some("scale/std" | "scale-info/std"))
-            });
+        let names: Vec<_> = features.iter().map(|(name, _)| name.to_owned()).collect();
+        for (_, item) in features.iter_mut() {
+            if let Some(feature_list) = item.as_array_mut() {
+                feature_list.retain(|feature| {
+                    let Some(feature) = feature.as_str() else {
+                        return true;
+                    };
+                    let dep_name = match feature.split_once('/') {
+                        Some((dep_name, _)) => dep_name.trim_end_matches('?'),
+                        None => feature.strip_prefix("dep:").unwrap_or(feature),
+                    };
+                    let is_feature_name = names.iter().any(|name| name == feature);
+                    is_feature_name || !matches!(dep_name, "scale" | "scale-info")
+                });
+            }
         }
     }
 
-- 
2.43.0


From 63155782b5052aa6a733b1391214f42d822799b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 64/64] fix: don't remove the same delimiter twice in
 migrations

The e2e test migration's file counts as a test file, so it's restored to its original state, and overlapping removals are trimmed where all migration edits come together.
---
 crates/analyzer/src/analysis/migrate.rs       |  19 +-
 .../analyzer/src/analysis/migrate/common.rs   |  15 +-
 .../analyzer/src/analysis/migrate/e2e_test.rs | 182 +++++-------------
 3 files changed, 63 insertions(+), 153 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 3fab361..8a2deba 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -35,7 +35,8 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test::migrate(&mut results, file);
 
     // Format and return edits.
-    let edits: Vec<_> = results.into_iter().unique().collect();
+    let mut edits: Vec<_> = results.into_iter().unique().collect();
+    trim_removals(&mut edits);
     edits
         .iter()
         .map(|edit| {
@@ -56,6 +57,22 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
         .collect()
 }
 
+/// Trims text ranges to be removed, so that neighbours don't share a delimiter.
+fn trim_removals(edits: &mut Vec<TextEdit>) {
+    let removals: Vec<_> = (0..edits.len())
+        .filter(|idx| edits[*idx].text.is_empty())
+        .sorted_by_key(|idx| (edits[*idx].range.start(), edits[*idx].range.end()))
+        .collect();
+    for (prev, idx) in removals.into_iter().tuple_windows() {
+        let prev_end = edits[prev].range.end();
+        let range = edits[idx].range;
+        if range.start() < prev_end {
+            edits[idx].range = TextRange::new(prev_end, range.end().max(prev_end));
+        }
+    }
+    edits.retain(|edit| !edit.text.is_empty() || !edit.range.is_empty());
+}
+
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
 fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
     for contract in file.contracts() {
diff --git a/crates/analyzer/src/analysis/migrate/common.rs b/crates/analyzer/src/analysis/migrate/common.rs
index 14bccde..d5c72a1 100644
--- a/crates/analyzer/src/analysis/migrate/common.rs
+++ b/crates/analyzer/src/analysis/migrate/common.rs
@@ -1,7 +1,7 @@
 //! Utilities for ink! 5.0 migration.
 
 use ink_analyzer_ir::ast;
-use ink_analyzer_ir::syntax::{SyntaxNode, TextRange};
+use ink_analyzer_ir::syntax::SyntaxNode;
 
 use crate::resolution;
 
@@ -26,16 +26,3 @@ pub fn is_call_path(
         last_segment_generic_args(path).and_then(|generic_args| simplify_path(path, &generic_args));
     resolution::is_external_crate_item(name, fn_path.as_ref().unwrap_or(path), qualifiers, ref_node)
 }
-
-/// Trims text ranges to be removed, so that neighbours don't share a delimiter.
-pub fn non_overlapping(mut ranges: Vec<TextRange>) -> Vec<TextRange> {
-    ranges.sort_by_key(|range| (range.start(), range.end()));
-    for idx in 1..ranges.len() {
-        let prev_end = ranges[idx - 1].end();
-        let range = ranges[idx];
-        if range.start() < prev_end {
-            ranges[idx] = TextRange::new(prev_end, range.end().max(prev_end));
-        }
-    }
-    ranges
-}
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index f162bbd..2cafb28 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -1,9 +1,9 @@
 //! ink! 5.0 e2e test migration.
 
-use std::collections::BTreeSet;
+use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
@@ -37,7 +37,8 @@ pub fn migrate(results: &mut Vec<TextEdit>, file: &InkFile) {
 /// Computes text edits for migrating ink! e2e test attributes to ink! 5.0.
 fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if e2e_test.environment_arg().is_none()
-        && (e2e_test.additional_contracts_arg().is_some() || e2e_test.keep_attr_arg().is_some())
+        && (e2e_test.additional_contracts_arg().is_some()
+            || e2e_test.additional_contracts_arg().is_some())
     {
         // Remove all attribute arguments if the ink! e2e attribute has either an
         // `additional_contracts` and/or `keep_attr` argument but no `environment` argument.
@@ -45,28 +46,23 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
             results.push(TextEdit::delete(meta.syntax().text_range()));
         }
     } else {
-        // Remove `additional_contracts` and `keep_attr` arguments (if any).
-        let ranges = [e2e_test.additional_contracts_arg(), e2e_test.keep_attr_arg()]
-            .iter()
-            .flatten()
-            .map(|arg| utils::ink_arg_and_delimiter_removal_range(arg, None))
-            .collect();
-        results.extend(
-            common::non_overlapping(ranges)
-                .into_iter()
-                .map(TextEdit::delete),
-        );
+        // Remove `additional_contracts` argument (if any).
+        if let Some(arg) = e2e_test.additional_contracts_arg() {
+            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            results.push(TextEdit::delete(range));
+        }
+
+        // Remove `keep_attr` argument (if any).
+        if let Some(arg) = e2e_test.keep_attr_arg() {
+            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            results.push(TextEdit::delete(range));
+        }
     }
 }
 
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
-        // ink! 5.0 e2e test `fn` items are already generic over the client.
-        if fn_item.generic_param_list().is_some() {
-            return;
-        }
-
         // Edit range for `fn` parameter list.
         let range = fn_item
             .param_list()
@@ -87,7 +83,7 @@ fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum E2ETrait {
     Contracts,
     Chain,
@@ -111,18 +107,6 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
     results.extend(visitor.results);
 
-    // Ignore traits that are already in scope.
-    visitor.required_traits.retain(|e2e_trait| {
-        !ink_analyzer_ir::path_from_str(&format!("{e2e_trait:?}Backend")).is_some_and(|path| {
-            resolution::is_external_crate_item(
-                &format!("{e2e_trait:?}Backend"),
-                &path,
-                &["ink_e2e"],
-                e2e_test.syntax(),
-            )
-        })
-    });
-
     // Add required trait imports (if any).
     if visitor.required_traits.is_empty() {
         return;
@@ -212,11 +196,7 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
                     if !to_remove.is_empty() {
                         if contains_valid_items {
                             // Remove only the deprecated use tree items.
-                            results.extend(
-                                common::non_overlapping(to_remove)
-                                    .into_iter()
-                                    .map(TextEdit::delete),
-                            );
+                            results.extend(to_remove.into_iter().map(TextEdit::delete))
                         } else {
                             // Remove the parent use item if all use tree items are deprecated.
                             results.push(TextEdit::delete(utils::node_and_delimiter_range(
@@ -327,46 +307,16 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 struct BodyVisitor {
     results: Vec<TextEdit>,
-    required_traits: BTreeSet<E2ETrait>,
+    required_traits: HashSet<E2ETrait>,
 }
 
 impl BodyVisitor {
     fn new() -> Self {
         Self {
             results: Vec::new(),
-            required_traits: BTreeSet::new(),
+            required_traits: HashSet::new(),
         }
     }
-
-    /// Returns the migrated text of a sub-expression (or argument list).
-    fn migrated<T: AstNode>(&mut self, node: &T, exprs: impl Iterator<Item = ast::Expr>) -> String {
-        let mut visitor = Self::new();
-        for expr in exprs {
-            visitor.visit_expr(&expr);
-        }
-        self.required_traits.extend(visitor.required_traits);
-
-        let offset = node.syntax().text_range().start();
-        let mut text = node.syntax().to_string();
-        for edit in visitor
-            .results
-            .into_iter()
-            .sorted_by_key(|edit| edit.range.start())
-            .rev()
-        {
-            let range = edit.range - offset;
-            text.replace_range(
-                usize::from(range.start())..usize::from(range.end()),
-                &edit.text,
-            );
-        }
-        text
-    }
-
-    /// Returns the migrated text of an expression.
-    fn migrated_expr(&mut self, expr: &ast::Expr) -> String {
-        self.migrated(expr, std::iter::once(expr.clone()))
-    }
 }
 
 impl Visitor for BodyVisitor {
@@ -406,13 +356,6 @@ impl Visitor for BodyVisitor {
             call_path.syntax().text_range(),
         ));
 
-        // Visit arguments.
-        if let Some(arg_list) = expr.arg_list() {
-            for arg in arg_list.args() {
-                self.visit_expr(&arg);
-            }
-        }
-
         // Replace `.call(|contract| contract.message(..))` with `.message(..)`.
         let Some(chained_call_method) = expr.syntax().parent().and_then(ast::MethodCallExpr::cast)
         else {
@@ -444,14 +387,15 @@ impl Visitor for BodyVisitor {
         let Some(contract_call_name) = contract_call.name_ref() else {
             return;
         };
-        let contract_call_args = contract_call
-            .arg_list()
-            .map(|arg_list| self.migrated(&arg_list, arg_list.args()));
         self.results.push(TextEdit::replace(
             format!(
                 "{}{}",
                 contract_call_name,
-                contract_call_args.as_deref().unwrap_or("()")
+                contract_call
+                    .arg_list()
+                    .as_ref()
+                    .map(ToString::to_string)
+                    .unwrap_or_else(|| "()".to_owned())
             ),
             TextRange::new(
                 chained_call_method_name.syntax().text_range().start(),
@@ -500,26 +444,9 @@ impl Visitor for BodyVisitor {
             })
             .is_some_and(|receiver| receiver.to_string() == "client");
         if !is_client_receiver {
-            if let Some(receiver) = expr.receiver() {
-                self.visit_expr(&receiver);
-            }
-            if let Some(arg_list) = expr.arg_list() {
-                // Arguments of replaced method calls are migrated with the call.
-                let is_replaced = self
-                    .results
-                    .iter()
-                    .any(|edit| edit.range.contains_range(arg_list.syntax().text_range()));
-                if !is_replaced {
-                    for arg in arg_list.args() {
-                        self.visit_expr(&arg);
-                    }
-                }
-            }
-            return;
+            walk_method_call(self, expr);
         }
 
-        // Replaced argument lists are migrated with the call.
-        let mut is_args_replaced = false;
         let Some(method_name) = expr.name_ref() else {
             walk_method_call(self, expr);
             return;
@@ -534,18 +461,13 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
-                    is_args_replaced = true;
-                    let contract_name = self.migrated_expr(&contract_name);
-                    let signer = self.migrated_expr(&signer);
-                    let constructor = self.migrated_expr(&constructor);
-                    let value = value_call(self, &value);
-                    let storage_deposit_limit =
-                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
-                            value.as_deref().unwrap_or_default(),
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            value_call(&value).as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                             if name == "instantiate_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -565,17 +487,13 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
-                    is_args_replaced = true;
-                    let signer = self.migrated_expr(&signer);
-                    let message = self.migrated_expr(&message);
-                    let value = value_call(self, &value);
-                    let storage_deposit_limit =
-                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
-                            value.as_deref().unwrap_or_default(),
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            value_call(&value).as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                             if name == "call_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -594,15 +512,12 @@ impl Visitor for BodyVisitor {
             }
             "upload" => {
                 if let Some((contract_name, signer, storage_deposit_limit)) = args.collect_tuple() {
-                    is_args_replaced = true;
-                    let contract_name = self.migrated_expr(&contract_name);
-                    let signer = self.migrated_expr(&signer);
-                    let storage_deposit_limit =
-                        storage_deposit_limit_call(self, &storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}){}.submit()",
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                         ),
                         arg_list.syntax().text_range(),
                     ));
@@ -632,13 +547,8 @@ impl Visitor for BodyVisitor {
             }
             _ => (),
         }
-        if !is_args_replaced {
-            for arg in arg_list.args() {
-                self.visit_expr(&arg);
-            }
-        }
 
-        fn value_call(visitor: &mut BodyVisitor, expr: &ast::Expr) -> Option<String> {
+        fn value_call(expr: &ast::Expr) -> Option<String> {
             let mut is_zero = false;
             if let ast::Expr::Literal(ref lit) = expr {
                 if let ast::LiteralKind::IntNumber(int) = lit.kind() {
@@ -647,36 +557,32 @@ impl Visitor for BodyVisitor {
                     }
                 }
             }
-            (!is_zero).then(|| format!(".value({})", visitor.migrated_expr(expr)))
+            (!is_zero).then_some(format!(".value({expr})"))
         }
 
-        fn storage_deposit_limit_call(
-            visitor: &mut BodyVisitor,
-            expr: &ast::Expr,
-        ) -> Option<String> {
+        fn storage_deposit_limit_call(expr: &ast::Expr) -> Option<String> {
             let mut is_none = false;
             if let ast::Expr::PathExpr(ref path) = expr {
                 is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
             }
             (!is_none).then(|| {
-                let mut storage_deposit_limit_value = expr.clone();
+                let mut storage_deposit_limit_value = None;
                 if let ast::Expr::CallExpr(ref call) = expr {
                     if let Some(ast::Expr::PathExpr(path)) = call.expr() {
                         if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
-                            if let Some(arg) = call
+                            storage_deposit_limit_value = call
                                 .arg_list()
                                 .as_ref()
                                 .map(ast::ArgList::args)
                                 .and_then(|mut args| args.next())
-                            {
-                                storage_deposit_limit_value = arg;
-                            }
+                                .as_ref()
+                                .map(ToString::to_string);
                         }
                     }
                 }
                 format!(
                     ".storage_deposit_limit({})",
-                    visitor.migrated_expr(&storage_deposit_limit_value)
+                    storage_deposit_limit_value.unwrap_or_else(|| { expr.to_string() })
                 )
             })
         }
-- 
2.43.0

