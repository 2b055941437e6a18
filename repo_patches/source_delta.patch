From 12526e175552c5a25bc7b1d57926a9e71bf0db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 01/83] fix: parse extension identifiers with pre-release
 versions, and do not panic without a dash

---
 crates/extension/src/id.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/extension/src/id.rs b/crates/extension/src/id.rs
index 1e9076c..bcbd54b 100644
--- a/crates/extension/src/id.rs
+++ b/crates/extension/src/id.rs
@@ -15,11 +15,22 @@ impl std::fmt::Display for Id {
 impl FromStr for Id {
     type Err = semver::Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let (name, version) = s.rsplit_once('-').unwrap();
-        Ok(Self {
-            name: name.to_string(),
-            version: semver::Version::parse(version)?,
-        })
+        // A pre-release version can contain dashes itself, so the name ends at the first dash which is
+        // followed by a valid version.
+        let mut error = None;
+        for (ix, _) in s.match_indices('-') {
+            match semver::Version::parse(&s[ix + 1..]) {
+                Ok(version) => {
+                    return Ok(Self {
+                        name: s[..ix].to_string(),
+                        version,
+                    });
+                }
+                Err(err) => error = Some(err),
+            }
+        }
+        // Without any dash there is no version at all.
+        Err(error.unwrap_or_else(|| semver::Version::parse("").expect_err("an empty version is invalid")))
     }
 }
 
-- 
2.43.0


From 9509b5d6137fc08c297359cc77fddc32b3c7361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 02/83] fix: schema diff paths: do not slice inside a
 character, reject signed indexes

---
 crates/graphql-schema-diff/src/path/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/path/parse.rs b/crates/graphql-schema-diff/src/path/parse.rs
index 57a65e6..4259d8d 100644
--- a/crates/graphql-schema-diff/src/path/parse.rs
+++ b/crates/graphql-schema-diff/src/path/parse.rs
@@ -121,7 +121,7 @@ impl<'a> Path<'a> {
 }
 
 fn parse_name_and_optional_index(s: &str) -> ParseResult<(&str, Option<usize>)> {
-    let bracket_idx = s.chars().position(|c| c == '[');
+    let bracket_idx = s.find('[');
 
     let name = bracket_idx.map(|idx| &s[..idx]).unwrap_or(s);
 
@@ -145,7 +145,7 @@ fn parse_index(s: &str) -> ParseResult<usize> {
 
     let idx = &s[1..s.len() - 1];
 
-    if !idx.chars().any(|char| char.is_ascii_digit()) {
+    if !idx.chars().all(|char| char.is_ascii_digit()) {
         return Err(ParseError);
     }
 
-- 
2.43.0


From a62b8b69d6caf6e6605c8fa8cc59b7665918b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 03/83] fix: schema patch: separate added arguments, apply
 argument type and default changes

---
 .../src/patch/type_definitions.rs             | 44 ++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..8b5032f 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -153,6 +153,8 @@ fn patch_fields<'a, T>(
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_argument_types = Vec::new();
+    let mut changed_argument_defaults = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -179,6 +181,15 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType => {
+                changed_argument_types.push((change.second_and_third_level(), change.resolved_str()));
+            }
+            ChangeKind::AddFieldArgumentDefault | ChangeKind::ChangeFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), Some(change.resolved_str())));
+            }
+            ChangeKind::RemoveFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), None));
+            }
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -219,8 +230,17 @@ fn patch_fields<'a, T>(
         if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
             schema.push('(');
 
-            for (_, full_argument) in &added_arguments_for_field {
+            let mut added = added_arguments_for_field.iter().peekable();
+
+            while let Some((_, full_argument)) = added.next() {
                 schema.push_str(full_argument);
+
+                // The resolved text can already include the separator that follows the argument.
+                let is_separated = full_argument.ends_with(|chr: char| chr == ',' || chr.is_whitespace());
+
+                if !is_separated && (added.peek().is_some() || arguments.peek().is_some()) {
+                    schema.push_str(", ");
+                }
             }
 
             while let Some(argument) = arguments.next() {
@@ -232,12 +252,26 @@ fn patch_fields<'a, T>(
 
                 schema.push_str(argument.name());
                 schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
 
-                if argument.default_value().is_some() {
+                let path = [field.name(), argument.name()];
+
+                match changed_argument_types.iter().find(|(changed, _)| *changed == path) {
+                    Some((_, new_type)) => schema.push_str(new_type),
+                    None => schema.push_str(&argument.ty().to_string()),
+                }
+
+                let default = match changed_argument_defaults.iter().find(|(changed, _)| *changed == path) {
+                    Some((_, new_default)) => *new_default,
+                    None if argument.default_value().is_some() => {
+                        let span = argument.default_value_span();
+                        Some(&paths.source()[span.start..span.end])
+                    }
+                    None => None,
+                };
+
+                if let Some(default) = default {
                     schema.push(' ');
-                    let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
+                    schema.push_str(default);
                 }
 
                 patch_directives(argument.directives(), schema, paths);
-- 
2.43.0


From a4829e1525e5109655a1a8ee8bfca5a2f88f5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 04/83] fix: schema patch: find removed interface
 implementations next to field changes

---
 crates/graphql-schema-diff/src/patch/paths.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..d67fb6c 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -71,13 +71,12 @@ where
     }
 
     pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
-            })
-            .is_ok()
+        // The second segments are prefixed with `&`, so they are not sorted by interface name.
+        self.paths.iter().any(|(path, idx)| {
+            path[0] == prefix
+                && path[1].trim_start_matches('&') == interface
+                && self.diff[*idx].kind == ChangeKind::RemoveInterfaceImplementation
+        })
     }
 }
 
-- 
2.43.0


From 460a528edf0d6846b2c4e18ee206d11c905a2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 05/83] fix: schema diff: keep directives and types of the same
 name apart

---
 crates/graphql-schema-diff/src/state.rs            | 4 ++++
 crates/graphql-schema-diff/src/traverse_schemas.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 3d28a26..a98c24b 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -10,6 +10,8 @@ pub(crate) struct DiffState<'a> {
     pub(crate) schema_definition_map: [Option<ast::SchemaDefinition<'a>>; 2],
     pub(crate) schema_extensions: Vec<[Option<ast::SchemaDefinition<'a>>; 2]>,
     pub(crate) types_map: DiffMap<&'a str, ast::Definition<'a>>,
+    /// Directives have their own namespace: a directive and a type can have the same name.
+    pub(crate) directives_map: DiffMap<&'a str, ast::Definition<'a>>,
     pub(crate) fields_map: DiffMap<[&'a str; 2], (Option<ast::Type<'a>>, Span)>,
     pub(crate) interface_impls: DiffMap<&'a str, Vec<&'a str>>,
     pub(crate) arguments_map: DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
@@ -50,6 +52,7 @@ impl DiffState<'_> {
             schema_definition_map,
             schema_extensions,
             types_map,
+            directives_map,
             fields_map,
             arguments_map,
             interface_impls,
@@ -69,6 +72,7 @@ impl DiffState<'_> {
         push_interface_implementer_changes(interface_impls, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
+        push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
         push_argument_changes(&fields_map, &arguments_map, &mut push_change);
 
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index eebf66b..5226114 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -31,7 +31,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[0] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                insert_source(&mut state.types_map, directive_def.name(), definition);
+                insert_source(&mut state.directives_map, directive_def.name(), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
@@ -138,7 +138,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[1] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                merge_target(state.types_map.entry(directive_def.name()), definition);
+                merge_target(state.directives_map.entry(directive_def.name()), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
-- 
2.43.0


From b09b7eeacdb4776c931cf0c2bba4aaae929c2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 06/83] fix: schema patch: do not print an empty block for
 types without fields

---
 .../src/patch/type_definitions.rs             | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 8b5032f..41c577c 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -81,13 +81,31 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push_str("\n\n");
 }
 
+const BLOCK_START: &str = " {\n";
+
+/// Starts a block of fields or values, returns its position for [end_block()].
+fn start_block(schema: &mut String) -> usize {
+    let block_start = schema.len();
+    schema.push_str(BLOCK_START);
+    block_start
+}
+
+/// Ends a block. Empty blocks are not valid, so they are left out.
+fn end_block(schema: &mut String, block_start: usize) {
+    if schema.len() == block_start + BLOCK_START.len() {
+        schema.truncate(block_start);
+    } else {
+        schema.push('}');
+    }
+}
+
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
-    schema.push_str(" {\n");
+    let block_start = start_block(schema);
 
     let mut removed_fields = Vec::new();
     let mut changed_field_types = Vec::new();
@@ -136,7 +154,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    end_block(schema, block_start);
 }
 
 fn patch_fields<'a, T>(
@@ -147,7 +165,7 @@ fn patch_fields<'a, T>(
 ) where
     T: AsRef<str>,
 {
-    schema.push_str(" {\n");
+    let block_start = start_block(schema);
 
     let mut changed_field_types = Vec::new();
     let mut removed_fields = Vec::new();
@@ -297,7 +315,7 @@ fn patch_fields<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    end_block(schema, block_start);
 }
 
 fn patch_enum_values<'a, T>(
@@ -310,7 +328,7 @@ fn patch_enum_values<'a, T>(
 {
     let mut removed_enum_values = Vec::new();
 
-    schema.push_str(" {\n");
+    let block_start = start_block(schema);
 
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
@@ -344,7 +362,7 @@ fn patch_enum_values<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    end_block(schema, block_start);
 }
 
 fn patch_union<'a, T>(
-- 
2.43.0


From ed239558a7b23a84c1cde3455309da3496da08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 07/83] fix: schema patch: keep the defaults and descriptions
 of input fields and enum values

---
 .../src/patch/type_definitions.rs             | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 41c577c..b616efd 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -138,6 +138,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -149,6 +156,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
@@ -354,6 +367,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
-- 
2.43.0


From 4d3310e73f304921ee0ddef75cb279306eb67ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 08/83] fix: schema diff: type extensions add to the interfaces
 of the definition

---
 .../src/traverse_schemas.rs                   | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index 5226114..a73c022 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -42,11 +42,9 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Object(obj) => {
                         state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            obj.implements_interfaces().collect(),
-                        );
+                        // Extensions add to the interfaces of the definition.
+                        let (implemented, _) = state.interface_impls.entry(type_name).or_default();
+                        implemented.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             let field_name = field.name();
@@ -63,11 +61,9 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Interface(iface) => {
                         state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            iface.implements_interfaces().collect(),
-                        );
+                        // Extensions add to the interfaces of the definition.
+                        let (implemented, _) = state.interface_impls.entry(type_name).or_default();
+                        implemented.get_or_insert_default().extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -149,10 +145,8 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Object(obj) => {
                         state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            obj.implements_interfaces().collect(),
-                        );
+                        let (_, implemented) = state.interface_impls.entry(type_name).or_default();
+                        implemented.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             merge_target(
@@ -165,10 +159,8 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Interface(iface) => {
                         state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            iface.implements_interfaces().collect(),
-                        );
+                        let (_, implemented) = state.interface_impls.entry(type_name).or_default();
+                        implemented.get_or_insert_default().extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
-- 
2.43.0


From 15e83c7990804f233645aac7bf90e2dafdc35749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 09/83] fix: schema patch: add to a type once when it has
 extensions

---
 crates/graphql-schema-diff/src/patch.rs       | 20 +++++++++--
 .../src/patch/type_definitions.rs             | 36 +++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index a81a822..b6c0844 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -5,6 +5,7 @@ mod type_definitions;
 
 use self::paths::Paths;
 use crate::{Change, ChangeKind};
+use std::collections::HashSet;
 
 const INDENTATION: &str = "  ";
 
@@ -44,6 +45,9 @@ where
         }
     }
 
+    // A type can have a definition and extensions: what is added goes to the first of them only.
+    let mut patched_types = HashSet::new();
+
     for definition in parsed.definitions() {
         match definition {
             cynic_parser::type_system::Definition::Schema(def) => {
@@ -58,10 +62,22 @@ where
                 schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
             }
             cynic_parser::type_system::Definition::Type(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Definition, &mut schema, &paths);
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Definition,
+                    patched_types.insert(ty.name()),
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::TypeExtension(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Extension, &mut schema, &paths);
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Extension,
+                    patched_types.insert(ty.name()),
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::Directive(directive_definition) => {
                 directives::patch_directive_definition(directive_definition, &mut schema, &paths);
diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index b616efd..14e07cf 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -9,6 +9,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_type_definition<T: AsRef<str>>(
     ty: TypeDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    apply_additions: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -26,6 +27,8 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
         }
     }
 
+    let definition_start = schema.len();
+
     if let Some(description) = ty.description() {
         let span = description.span();
         schema.push_str(&paths.source()[span.start..span.end]);
@@ -49,13 +52,18 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push(' ');
     schema.push_str(ty.name());
 
+    let header_end = schema.len();
+
     let mut implements: Vec<&str> = match ty {
         TypeDefinition::Object(obj) => obj.implements_interfaces().collect(),
         TypeDefinition::Interface(interface) => interface.implements_interfaces().collect(),
         _ => Vec::new(),
     };
 
-    implements.extend(paths.added_interface_impls(ty.name()));
+    if apply_additions {
+        implements.extend(paths.added_interface_impls(ty.name()));
+    }
+
     implements.retain(|interface| !paths.is_interface_impl_removed(ty.name(), interface));
     implements.sort_unstable();
     implements.dedup();
@@ -69,15 +77,23 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
 
     match ty {
         TypeDefinition::Scalar(_) => (),
-        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), schema, paths),
-        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), schema, paths),
-        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), schema, paths),
-        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), schema, paths),
+        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), apply_additions, schema, paths),
+        TypeDefinition::Interface(interface) => {
+            patch_fields(interface.fields(), ty.name(), apply_additions, schema, paths)
+        }
+        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), apply_additions, schema, paths),
+        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), apply_additions, schema, paths),
         TypeDefinition::InputObject(input_object) => {
-            patch_input_object(input_object.fields(), ty.name(), schema, paths)
+            patch_input_object(input_object.fields(), ty.name(), apply_additions, schema, paths)
         }
     }
 
+    // Extensions that do not extend anything anymore are not valid.
+    if definition_or_extension.is_extension() && schema.len() == header_end {
+        schema.truncate(definition_start);
+        return;
+    }
+
     schema.push_str("\n\n");
 }
 
@@ -102,6 +118,7 @@ fn end_block(schema: &mut String, block_start: usize) {
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
+    apply_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
@@ -120,6 +137,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !apply_additions => {}
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -173,6 +191,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
 fn patch_fields<'a, T>(
     fields: impl Iterator<Item = FieldDefinition<'a>>,
     parent: &str,
+    apply_additions: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) where
@@ -197,6 +216,7 @@ fn patch_fields<'a, T>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !apply_additions => {}
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -334,6 +354,7 @@ fn patch_fields<'a, T>(
 fn patch_enum_values<'a, T>(
     values: impl Iterator<Item = EnumValueDefinition<'a>>,
     enum_name: &str,
+    apply_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -345,6 +366,7 @@ fn patch_enum_values<'a, T>(
 
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
+            ChangeKind::AddEnumValue if !apply_additions => {}
             ChangeKind::AddEnumValue => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -388,6 +410,7 @@ fn patch_enum_values<'a, T>(
 fn patch_union<'a, T>(
     members: impl Iterator<Item = UnionMember<'a>>,
     union_name: &str,
+    apply_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -398,6 +421,7 @@ fn patch_union<'a, T>(
 
     for change in paths.iter_second_level(union_name) {
         match change.kind() {
+            ChangeKind::AddUnionMember if !apply_additions => {}
             ChangeKind::AddUnionMember => {
                 added_members.push(change.second_level().expect("AddUnionMember without member name"))
             }
-- 
2.43.0


From ee565bfa8cf710cc697cf94d8fff9600fe25909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 10/83] fix: operation checks: find the arguments of a field
 when its type and field names sort differently

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From 9c8d386ff7bc2cf4b5483e6deeed79a8b7b0bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 11/83] fix: operation checks: count type conditions by
 requests and in named fragments

---
 .../operation-checks/src/aggregate_field_usage.rs  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..2078c3a 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -159,6 +159,13 @@ impl FieldUsage {
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
+    fn register_type_condition_usage(&mut self, parent_type_name: &str, type_condition: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, type_condition].join("."))
+            .or_insert(0) += self.increment;
+    }
+
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
         *self
             .arguments_with_defaults_left_out_count
@@ -247,15 +254,12 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition_usage(parent_type_name, type_condition);
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
-
+                    usage.register_type_condition_usage(parent_type_name, on);
                     on
                 } else {
                     parent_type_name
-- 
2.43.0


From a4bbf7f23ca9fb14a022d1ea3e2091dbfff3638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 12/83] fix: operation checks: take the arguments of interface
 fields into account

---
 .../src/schema/async_graphql.rs               | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index d16cadf..29e4a27 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -53,17 +53,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     wrappers,
                                 });
 
-                                for argument in &field.node.arguments {
-                                    let (base_type, wrappers) = extract_type(&argument.node.ty.node);
-                                    field_arguments.push(schema::FieldArgument {
-                                        type_name: type_name.to_string(),
-                                        field_name: field_name.to_string(),
-                                        argument_name: argument.node.name.node.to_string(),
-                                        base_type,
-                                        wrappers,
-                                        has_default: argument.node.default_value.is_some(),
-                                    });
-                                }
+                                ingest_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::Interface(iface) => {
@@ -80,6 +70,8 @@ impl From<ServiceDocument> for schema::Schema {
                                     base_type,
                                     wrappers,
                                 });
+
+                                ingest_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::InputObject(input_obj) => {
@@ -116,6 +108,24 @@ impl From<ServiceDocument> for schema::Schema {
     }
 }
 
+fn ingest_arguments(
+    type_name: &str,
+    field: &async_graphql_parser::types::FieldDefinition,
+    field_arguments: &mut Vec<schema::FieldArgument>,
+) {
+    for argument in &field.arguments {
+        let (base_type, wrappers) = extract_type(&argument.node.ty.node);
+        field_arguments.push(schema::FieldArgument {
+            type_name: type_name.to_string(),
+            field_name: field.name.node.to_string(),
+            argument_name: argument.node.name.node.to_string(),
+            base_type,
+            wrappers,
+            has_default: argument.node.default_value.is_some(),
+        });
+    }
+}
+
 pub(crate) fn extract_type(top_level_ty: &async_graphql_parser::types::Type) -> (String, WrappingTypes) {
     let mut ty = top_level_ty;
     let mut wrapper_types = WrappingTypes::default();
-- 
2.43.0


From 4be07c9ade5a3f860a089ad598b6397f168c79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 13/83] fix: operation checks: adding a required input field
 with a default is not breaking

---
 crates/operation-checks/src/check/rules.rs          | 2 +-
 crates/operation-checks/src/schema.rs               | 6 ++++++
 crates/operation-checks/src/schema/async_graphql.rs | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..a15a655 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -118,7 +118,7 @@ pub(super) fn add_field<T: UsageProvider>(
 
     let field_id = check_params.target.find_field(type_name, field_name)?;
 
-    if !check_params.target[field_id].is_required() {
+    if !check_params.target[field_id].is_required_without_default_value() {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2e89d10..0c3cfe9 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -109,6 +109,8 @@ pub struct SchemaField {
     /// The type of the field without any wrapping type (! and []).
     pub(crate) base_type: String,
     pub(crate) wrappers: WrappingTypes,
+    /// Only input fields have defaults.
+    pub(crate) has_default: bool,
 }
 
 impl SchemaField {
@@ -119,6 +121,10 @@ impl SchemaField {
     pub(crate) fn is_required(&self) -> bool {
         self.wrappers.is_nonnull()
     }
+
+    pub(crate) fn is_required_without_default_value(&self) -> bool {
+        self.is_required() && !self.has_default
+    }
 }
 
 impl PartialOrd for SchemaField {
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index 29e4a27..ae68eb1 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -51,6 +51,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, &field.node, &mut field_arguments);
@@ -69,6 +70,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, &field.node, &mut field_arguments);
@@ -84,6 +86,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: field.node.default_value.is_some(),
                                 });
                             }
                         }
-- 
2.43.0


From 6250f123ef714a0d39be855569926272334ee759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 14/83] fix: operation checks: removing the default of an
 argument that is nullable is not breaking

---
 crates/operation-checks/src/check.rs       | 8 ++++++++
 crates/operation-checks/src/check/rules.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 5e24295..37acf5c 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -69,6 +69,14 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.argument_is_left_out(argument_id)
     }
 
+    fn find_target_argument(&self, path: &str) -> Option<&'a crate::schema::FieldArgument> {
+        let target = self.target;
+        let mut path = path.split('.');
+        let path = (path.next()?, path.next()?, path.next()?);
+
+        target.find_argument(path).map(|id| &target[id])
+    }
+
     fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
         let mut path = path.split('.');
         let type_name = path.next().unwrap();
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index a15a655..11018cf 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -424,6 +424,12 @@ pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_
         return None;
     }
 
+    if let Some(argument) = args.check_params.find_target_argument(path)
+        && !argument.is_required()
+    {
+        return None;
+    }
+
     Some(CheckDiagnostic {
         message: format!("The default value for required argument `{path}` was removed but some queries leave it out.",),
         severity: Severity::Error,
-- 
2.43.0


From 8141ed497be8cf52f7a131b53fec3b059e554505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 15/83] fix: operation checks: compare a changed argument with
 the target schema, report it exactly when clients break

---
 crates/operation-checks/src/check/rules.rs    | 67 ++++++++++---------
 .../src/schema/wrapping_types.rs              |  8 +++
 2 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 11018cf..062c61e 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -141,8 +141,9 @@ pub(super) fn add_field<T: UsageProvider>(
     }
 }
 
-/// Changing the type of an argument or removing an argument is safe iff the argument is not in
-/// use or if it was required and became optional (keeping the same inner type).
+/// Changing the type of an argument is safe iff the field is not in use, or the new type accepts
+/// everything the operations provide: the same base type and lists, with nonnull only removed. An
+/// argument that became required also breaks the operations that leave it out.
 pub(super) fn change_field_argument_type<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
@@ -152,44 +153,46 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
         return None;
     }
 
-    let (type_name, field_name_and_arg_name) = change.path.split_once('.').unwrap();
-    let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
+    let became_required = Some(CheckDiagnostic {
+        message: format!(
+            "The argument `{}` became required, but clients are not providing it.",
+            change.path
+        ),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    });
 
-    let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_is_used = check_params.argument_is_used(&change.path);
+    let arg_in_src = check_params
+        .find_argument(&change.path)
+        .map(|id| &check_params.source[id]);
+    let arg_in_target = check_params.find_target_argument(&change.path);
 
-    'refine: {
-        if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-            let src_arg = &check_params.source[src_id];
-            let target_arg = &check_params.target[target_id];
+    if let Some((src_arg, target_arg)) = arg_in_src.zip(arg_in_target) {
+        if target_arg.is_required_without_default_value() && !src_arg.is_required_without_default_value() {
+            return became_required;
+        }
 
-            if src_arg.base_type != target_arg.base_type {
-                break 'refine; // type change overrides arity change
-            }
+        // A default also stands in for a nullable variable.
+        let target_wrappers = if target_arg.has_default && !src_arg.is_required() {
+            target_arg.wrappers.to_nullable()
+        } else {
+            target_arg.wrappers
+        };
 
-            match src_arg.wrappers.compare(&target_arg.wrappers) {
-                crate::schema::WrapperTypesComparison::RemovedNonNull => return None,
-                crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
-                    return None;
-                }
-                crate::schema::WrapperTypesComparison::AddedNonNull => {
-                    return Some(CheckDiagnostic {
-                        message: format!(
-                            "The argument `{}` became required, but clients are not providing it.",
-                            change.path
-                        ),
-                        severity: Severity::Error,
-                        path: change.path.clone(),
-                        change_kind: change.kind,
-                    });
-                }
-                crate::schema::WrapperTypesComparison::NoChange
-                | crate::schema::WrapperTypesComparison::NotCompatible => break 'refine,
+        if src_arg.base_type == target_arg.base_type {
+            match src_arg.wrappers.compare(&target_wrappers) {
+                crate::schema::WrapperTypesComparison::RemovedNonNull
+                | crate::schema::WrapperTypesComparison::NoChange => return None,
+                crate::schema::WrapperTypesComparison::AddedNonNull if arg_is_used => return became_required,
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                | crate::schema::WrapperTypesComparison::NotCompatible => (),
             }
         }
     }
 
-    if !check_params.argument_is_used(&change.path) {
+    if !arg_is_used {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index f939885..b72ec57 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -91,6 +91,14 @@ impl WrappingTypes {
             .unwrap_or_else(|| self.inner_is_nonnull())
     }
 
+    /// The same type without the outermost nonnull.
+    pub(crate) fn to_nullable(self) -> Self {
+        match self.lists_count() {
+            0 => WrappingTypes(self.0 & !Self::NONNULL_BIT_MASK),
+            _ => WrappingTypes(self.0 & !1),
+        }
+    }
+
     pub(crate) fn compare(&self, target: &WrappingTypes) -> WrapperTypesComparison {
         use ListType::*;
         use WrapperTypesComparison::*;
-- 
2.43.0


From d3dbaf0d96cfbfa2889836e213dd523ddcba9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 16/83] fix: operation checks: count enum literals in lists and
 input objects

---
 .../src/aggregate_field_usage.rs              | 33 +++++++++-----
 crates/operation-checks/src/operation.rs      | 15 +++++--
 .../src/operation/async_graphql.rs            | 44 +++++++++++++------
 3 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 2078c3a..4055d00 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -155,8 +155,22 @@ impl FieldUsage {
         }
     }
 
-    fn register_enum_value_usage(&mut self, enum_and_value: String) {
-        *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
+    /// Register the enum value of a literal inside an input value of the type `base_type`.
+    fn register_enum_value_usage(&mut self, base_type: &str, literal: &EnumLiteral, schema: &schema::Schema) {
+        let mut base_type = base_type;
+
+        for field_name in &literal.path {
+            let Some(field_id) = schema.find_field(base_type, field_name) else {
+                return;
+            };
+
+            base_type = &schema[field_id].base_type;
+        }
+
+        *self
+            .count_per_enum_value
+            .entry([base_type, literal.value.as_str()].join("."))
+            .or_insert(0) += self.increment;
     }
 
     fn register_type_condition_usage(&mut self, parent_type_name: &str, type_condition: &str) {
@@ -176,8 +190,8 @@ impl FieldUsage {
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
 pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage: &mut FieldUsage) {
-    for used_enum_value in &query.enum_values_in_variable_defaults {
-        usage.register_enum_value_usage(used_enum_value.clone());
+    for (base_type, literal) in &query.enum_values_in_variable_defaults {
+        usage.register_enum_value_usage(base_type, literal, schema);
     }
 
     let ty = match query.operation_type {
@@ -214,20 +228,15 @@ fn aggregate_field_usage_inner(
 
                 usage.register_field_usage(field_id);
 
-                for super::operation::Argument {
-                    name,
-                    enum_literal_value,
-                } in arguments
-                {
+                for super::operation::Argument { name, enum_literals } in arguments {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
                         continue;
                     };
 
                     usage.register_argument_usage(argument_id);
 
-                    if let Some(enum_value) = enum_literal_value {
-                        let enum_type_name = schema[argument_id].base_type.as_str();
-                        usage.register_enum_value_usage([enum_type_name, enum_value.as_str()].join("."));
+                    for literal in enum_literals {
+                        usage.register_enum_value_usage(&schema[argument_id].base_type, literal, schema);
                     }
                 }
 
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index abc37b1..de03010 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -17,7 +17,8 @@ pub struct Operation {
     /// (parent selection, selection)
     pub(crate) selections: Vec<(SelectionId, Selection)>,
 
-    pub(crate) enum_values_in_variable_defaults: Vec<String>,
+    /// (variable base type, literal)
+    pub(crate) enum_values_in_variable_defaults: Vec<(String, EnumLiteral)>,
 }
 
 #[derive(Debug)]
@@ -33,11 +34,19 @@ pub enum OperationType {
     Subscription,
 }
 
+/// An enum literal in an input value.
+#[derive(Debug)]
+pub(crate) struct EnumLiteral {
+    /// The input object fields leading to the literal.
+    pub(crate) path: Vec<String>,
+    pub(crate) value: String,
+}
+
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
-    /// Some(_) if the argument value is an enum literal.
-    pub(crate) enum_literal_value: Option<String>,
+    /// The enum literals in the argument value, including lists and input objects.
+    pub(crate) enum_literals: Vec<EnumLiteral>,
 }
 
 #[derive(Debug)]
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index 2ed31b0..c1cc279 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,6 +1,6 @@
 use super::*;
-use async_graphql_parser::{Positioned, types::ExecutableDocument};
-use async_graphql_value::ConstValue;
+use async_graphql_parser::types::ExecutableDocument;
+use async_graphql_value::Value;
 
 impl From<ExecutableDocument> for super::Operation {
     fn from(value: ExecutableDocument) -> Self {
@@ -39,13 +39,11 @@ impl From<ExecutableDocument> for super::Operation {
         selection_id_counter += 1;
 
         for variable in &operation.node.variable_definitions {
-            if let Some(Positioned {
-                node: ConstValue::Enum(enum_value),
-                ..
-            }) = &variable.node.default_value
-            {
+            if let Some(default_value) = &variable.node.default_value {
                 let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
-                enum_values_in_variable_defaults.push([base.as_str(), enum_value.as_str()].join("."));
+                let mut literals = Vec::new();
+                ingest_enum_literals(&default_value.node.clone().into_value(), &mut Vec::new(), &mut literals);
+                enum_values_in_variable_defaults.extend(literals.into_iter().map(|literal| (base.clone(), literal)));
             }
         }
 
@@ -66,6 +64,28 @@ impl From<ExecutableDocument> for super::Operation {
     }
 }
 
+fn ingest_enum_literals(value: &Value, path: &mut Vec<String>, literals: &mut Vec<EnumLiteral>) {
+    match value {
+        Value::Enum(value) => literals.push(EnumLiteral {
+            path: path.clone(),
+            value: value.to_string(),
+        }),
+        Value::List(values) => {
+            for value in values {
+                ingest_enum_literals(value, path, literals);
+            }
+        }
+        Value::Object(fields) => {
+            for (name, value) in fields {
+                path.push(name.to_string());
+                ingest_enum_literals(value, path, literals);
+                path.pop();
+            }
+        }
+        _ => (),
+    }
+}
+
 fn ingest_selection(
     counter: &mut usize,
     selection: &async_graphql_parser::types::Selection,
@@ -94,14 +114,12 @@ fn ingest_selection(
                     .arguments
                     .iter()
                     .map(|(name, value)| {
-                        let enum_literal_value = match &value.node {
-                            async_graphql_value::Value::Enum(val) => Some(val.to_string()),
-                            _ => None,
-                        };
+                        let mut enum_literals = Vec::new();
+                        ingest_enum_literals(&value.node, &mut Vec::new(), &mut enum_literals);
 
                         Argument {
                             name: name.node.to_string(),
-                            enum_literal_value,
+                            enum_literals,
                         }
                     })
                     .collect(),
-- 
2.43.0


From a5d1a1f0012d2f5af59054fee10909fc7b0c7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 17/83] fix: schema validation: check empty enums and unions,
 reserved enum values, repeated values in enum extensions

---
 .../src/diagnostics/constructors.rs                  | 12 ++++++++++++
 .../graphql-schema-validation/src/validate/enums.rs  | 11 ++++++++++-
 .../graphql-schema-validation/src/validate/unions.rs |  4 ++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/diagnostics/constructors.rs b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
index 5a18a7f..be6aafe 100644
--- a/crates/graphql-schema-validation/src/diagnostics/constructors.rs
+++ b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
@@ -44,3 +44,15 @@ pub(crate) fn empty_input_object(bad_input_object: &str, ctx: &mut Context<'_>)
         "The input object type {bad_input_object} has no fields. An input object type must define one or more fields."
     ))
 }
+
+pub(crate) fn empty_enum(bad_enum: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The enum type {bad_enum} has no values. An enum type must define one or more values."
+    ))
+}
+
+pub(crate) fn empty_union(bad_union: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The union type {bad_union} has no members. A union type must include one or more member types."
+    ))
+}
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 9810086..568d8d2 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -9,13 +9,22 @@ pub(crate) fn validate_enum_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
+        if values.is_empty() {
+            diagnostics::empty_enum(type_name, ctx);
+        }
+
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = enm.values[idx].node.value.node.as_str();
+            let value_name = values[idx].node.value.node.as_str();
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
         for value in values {
+            let value_name = value.node.value.node.as_str();
+            if value_name.starts_with("__") {
+                diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
+            }
+
             validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
         }
     });
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 2298843..baf49e5 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -26,6 +26,10 @@ pub(crate) fn validate_union_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
     ctx.with_union_members(type_name, &union.members, |ctx, members| {
+        if members.is_empty() {
+            diagnostics::empty_union(type_name, ctx);
+        }
+
         for member in members {
             let member_name = member.node.as_str();
             match ctx.definition_names.get(member_name) {
-- 
2.43.0


From 375d8bb1a90a76ae5606a137d613485d5005c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 18/83] fix: schema validation: find types only known by
 extensions in every position

---
 .../graphql-schema-validation/src/context.rs  | 12 +++++++++
 .../src/validate/input_types.rs               |  2 +-
 .../src/validate/interface_implementers.rs    | 25 +++++--------------
 .../src/validate/output_types.rs              | 10 ++------
 .../src/validate/schema_definition.rs         |  4 +--
 .../src/validate/unions.rs                    |  2 +-
 6 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 27e3cd9..f1a0059 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -60,6 +60,18 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The definition of a type or, unless extending unknown types is forbidden, its first
+    /// extension if the document only extends it.
+    pub(crate) fn get_type(&self, name: &str) -> Option<&'a Positioned<ast::TypeDefinition>> {
+        self.definition_names.get(name).copied().or_else(|| {
+            if self.options.contains(crate::Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
+                return None;
+            }
+
+            self.extension_names.get(name)?.first().copied()
+        })
+    }
+
     /// With an enum name and the enum declaration values, iterate all these values _and the values
     /// defined in enum extensions_ together.
     pub(crate) fn with_enum_values<F>(
diff --git a/crates/graphql-schema-validation/src/validate/input_types.rs b/crates/graphql-schema-validation/src/validate/input_types.rs
index 626d474..a3fc390 100644
--- a/crates/graphql-schema-validation/src/validate/input_types.rs
+++ b/crates/graphql-schema-validation/src/validate/input_types.rs
@@ -13,7 +13,7 @@ pub(crate) fn validate_input_type(type_name: &str, _pos: Pos, ctx: &mut Context<
         return ValidateInputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(type_name) else {
+    let Some(definition) = ctx.get_type(type_name) else {
         return ValidateInputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 74a0e29..544bffe 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Positioned, types as ast};
 use async_graphql_value::Name;
 
@@ -20,24 +20,11 @@ pub(crate) fn validate_implements_list<'a>(
 
     for iface in parent_implements {
         let iface_name = iface.node.as_str();
-        let ty = match ctx.definition_names.get(iface_name).copied() {
-            Some(ty) => ty,
-            None if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) => {
-                ctx.push_error(miette::miette!(
-                    r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                ));
-                continue;
-            }
-            None => {
-                if let Some([ty, ..]) = ctx.extension_names.get(iface_name).map(|v| v.as_slice()) {
-                    ty
-                } else {
-                    ctx.push_error(miette::miette!(
-                        r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                    ));
-                    continue;
-                }
-            }
+        let Some(ty) = ctx.get_type(iface_name) else {
+            ctx.push_error(miette::miette!(
+                r#""{parent_name} cannot implement unknown type "{iface_name}"."#
+            ));
+            continue;
         };
 
         match &ty.node.kind {
diff --git a/crates/graphql-schema-validation/src/validate/output_types.rs b/crates/graphql-schema-validation/src/validate/output_types.rs
index 524013d..c499408 100644
--- a/crates/graphql-schema-validation/src/validate/output_types.rs
+++ b/crates/graphql-schema-validation/src/validate/output_types.rs
@@ -1,4 +1,4 @@
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Pos, types::TypeKind};
 
 #[must_use]
@@ -13,13 +13,7 @@ pub(crate) fn validate_output_type(name: &str, _pos: Pos, ctx: &mut Context<'_>)
         return ValidateOutputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(name).or_else(|| {
-        if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
-            return None;
-        }
-
-        ctx.extension_names.get(name).and_then(|extension| extension.first())
-    }) else {
+    let Some(definition) = ctx.get_type(name) else {
         return ValidateOutputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index ef82d0f..4f6d5bd 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -54,7 +54,7 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
-        match ctx.definition_names.get(actual) {
+        match ctx.get_type(actual) {
             None => {
                 let labels = vec![miette::LabeledSpan::new_with_span(
                     None,
@@ -82,7 +82,7 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
 
 pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
     for name in ["Query", "Mutation", "Subscription"] {
-        if let Some(def) = ctx.definition_names.get(name)
+        if let Some(def) = ctx.get_type(name)
             && !matches!(def.node.kind, ast::TypeKind::Object(_))
         {
             ctx.push_error(miette::miette!("{name} should be an object"));
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index baf49e5..bbbca7e 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -32,7 +32,7 @@ pub(crate) fn validate_union_members<'a>(
 
         for member in members {
             let member_name = member.node.as_str();
-            match ctx.definition_names.get(member_name) {
+            match ctx.get_type(member_name) {
                 Some(definition) => match definition.node.kind {
                     ast::TypeKind::Object(_) => (), // ok
                     _ => ctx.push_error(miette::miette!(
-- 
2.43.0


From f0b26268042353559a2ce3350734471bed1d09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 19/83] fix: schema validation: take extensions into account
 when checking implemented interfaces

---
 .../graphql-schema-validation/src/context.rs  | 32 +++++++++
 .../src/validate/interface_implementers.rs    | 66 +++++--------------
 2 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index f1a0059..2bef82e 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -72,6 +72,38 @@ impl<'a> Context<'a> {
         })
     }
 
+    /// All the fields of an object or interface, including those defined in extensions.
+    pub(crate) fn all_fields(&self, name: &str) -> Vec<&'a AstField> {
+        let base: &'a [AstField] = match self.definition_names.get(name).map(|def| &def.node.kind) {
+            Some(ast::TypeKind::Object(obj)) => &obj.fields,
+            Some(ast::TypeKind::Interface(iface)) => &iface.fields,
+            _ => &[],
+        };
+        let extended = self.extended_fields.get(name).into_iter().flatten().copied().flatten();
+        base.iter().chain(extended).collect()
+    }
+
+    /// All the interfaces an object or interface implements, including those in extensions.
+    pub(crate) fn all_implements(&self, name: &str) -> Vec<&'a Positioned<Name>> {
+        let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|def| &def.node.kind) {
+            Some(ast::TypeKind::Object(obj)) => &obj.implements,
+            Some(ast::TypeKind::Interface(iface)) => &iface.implements,
+            _ => &[],
+        };
+        let extended = self.extended_interface_implementations.get(name).into_iter().flatten();
+        base.iter().chain(extended.copied()).collect()
+    }
+
+    /// All the members of a union, including those in extensions.
+    pub(crate) fn all_union_members(&self, name: &str) -> Vec<&'a Positioned<Name>> {
+        let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|def| &def.node.kind) {
+            Some(ast::TypeKind::Union(union)) => &union.members,
+            _ => &[],
+        };
+        let extended = self.extended_unions.get(name).into_iter().flatten().copied().flatten();
+        base.iter().chain(extended).collect()
+    }
+
     /// With an enum name and the enum declaration values, iterate all these values _and the values
     /// defined in enum extensions_ together.
     pub(crate) fn with_enum_values<F>(
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 544bffe..20dbff6 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -28,16 +28,9 @@ pub(crate) fn validate_implements_list<'a>(
         };
 
         match &ty.node.kind {
-            ast::TypeKind::Interface(iface) => {
-                validate_implements_interface_transitively(
-                    parent_name,
-                    parent_implements,
-                    &ty.node.name.node,
-                    iface,
-                    ctx,
-                );
-
-                validate_fields_implement_interface(parent_name, parent_fields, &ty.node.name.node, iface, ctx);
+            ast::TypeKind::Interface(_) => {
+                validate_implements_interface_transitively(parent_name, parent_implements, &ty.node.name.node, ctx);
+                validate_fields_implement_interface(parent_name, parent_fields, &ty.node.name.node, ctx);
             }
             _ => ctx.push_error(miette::miette!(
                 r#""{parent_name}" cannot implement non-interface type "{}"."#,
@@ -51,13 +44,13 @@ fn validate_fields_implement_interface<'a>(
     implementer_name: &str,
     implementer_fields: &'a [Positioned<ast::FieldDefinition>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
     ctx: &mut Context<'a>,
 ) {
     let mut errs = Vec::new();
+    let iface_fields = ctx.all_fields(iface_name);
 
     ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
-        for field in &iface.fields {
+        for field in &iface_fields {
             let candidate_field = candidate_superset
                 .iter()
                 .find(|candidate| candidate.node.name.node == field.node.name.node);
@@ -181,43 +174,17 @@ fn validate_implementer_inner_type(
     }
 
     // Check if the candidate is a refinement of the interface.
-    match ctx
-        .definition_names
-        .get(iface_field_type_name)
-        .map(|def| &def.node.kind)
-    {
-        Some(ast::TypeKind::Union(union)) => {
-            if union.members.iter().any(|member| member.node == candidate_type_name) {
-                return true;
-            }
-        }
-        Some(ast::TypeKind::Interface(_)) => {
-            match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
-                Some(ast::TypeKind::Object(obj)) => {
-                    if obj
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                Some(ast::TypeKind::Interface(field_iface)) => {
-                    if field_iface
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                _ => (),
-            }
-        }
-        _ => (),
+    match ctx.get_type(iface_field_type_name).map(|def| &def.node.kind) {
+        Some(ast::TypeKind::Union(_)) => ctx
+            .all_union_members(iface_field_type_name)
+            .iter()
+            .any(|member| member.node == candidate_type_name),
+        Some(ast::TypeKind::Interface(_)) => ctx
+            .all_implements(candidate_type_name)
+            .iter()
+            .any(|implemented| implemented.node == iface_field_type_name),
+        _ => false,
     }
-
-    false
 }
 
 fn validate_implementer_wrapper_types(candidate: &ast::Type, iface: &ast::Type) -> bool {
@@ -238,10 +205,9 @@ fn validate_implements_interface_transitively<'a>(
     parent_name: &'a str,
     parent_implements: &[&'a Positioned<Name>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
     ctx: &mut Context<'a>,
 ) {
-    for iface_implements in &iface.implements {
+    for iface_implements in ctx.all_implements(iface_name) {
         if !parent_implements
             .iter()
             .any(|obj_implements| obj_implements.node == iface_implements.node)
-- 
2.43.0


From f789a7c66fae0de5cd0b2ef8732f793dd3b92197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 20/83] fix: schema validation: an additional argument with a
 default is not required

---
 .../src/validate/interface_implementers.rs                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 20dbff6..5a68fa5 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -121,7 +121,7 @@ fn validate_field_arguments_implement_interface_field(
                     ctx.push_error(miette::miette!("Interface field argument {iface_arg_location} expects type {expected_type} but {candidate_arg_location} is type {found_type}"));
                 }
             }
-            (Some(candidate), None) if candidate.node.ty.node.nullable => (), // ok
+            (Some(candidate), None) if candidate.node.ty.node.nullable || candidate.node.default_value.is_some() => (), // ok
             (Some(candidate), None) => {
                 let arg_name = candidate.node.name.node.as_str();
                 let iface_field = format!("{iface_name}.{field_name}");
-- 
2.43.0


From 904a7566555a4f82c184a6952f48a69053e6f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 21/83] fix: schema validation: an interface cannot implement
 itself

---
 .../src/validate/interface_implementers.rs                  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 5a68fa5..3f315fa 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -20,6 +20,12 @@ pub(crate) fn validate_implements_list<'a>(
 
     for iface in parent_implements {
         let iface_name = iface.node.as_str();
+
+        if iface_name == parent_name {
+            ctx.push_error(miette::miette!(r#"Type "{parent_name}" cannot implement itself."#));
+            continue;
+        }
+
         let Some(ty) = ctx.get_type(iface_name) else {
             ctx.push_error(miette::miette!(
                 r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-- 
2.43.0


From e9e13b55959059c39e8db20fe8ebd4b9e9bbe51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 22/83] fix: schema validation: validate the fields of
 interface extensions, repeated interface fields

---
 .../src/validate/interfaces.rs                | 24 +++------
 .../src/validate/objects.rs                   | 49 +++++++++++--------
 2 files changed, 35 insertions(+), 38 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 494b9d4..dd86b48 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -11,25 +11,13 @@ pub(crate) fn validate_interface<'a>(
         interface_implementers::validate_implements_list(parent_type_name, implements, &iface.fields, ctx);
     });
 
-    if iface.fields.is_empty() {
-        diagnostics::empty_interface(parent_type_name, ctx)
-    }
-
-    for field in &iface.fields {
-        object_field::validate_object_field(parent_type_name, field, ctx);
-        let field_name = &field.node.name.node;
-        let type_name = extract_type_name(&field.node.ty.node.base);
-        let location = || format!("{parent_type_name}.{field_name}");
-        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-            output_types::ValidateOutputTypeResult::Ok => (),
-            output_types::ValidateOutputTypeResult::UnknownType => {
-                diagnostics::unknown_type(type_name, &location(), ctx);
-            }
-            output_types::ValidateOutputTypeResult::InputObject => {
-                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-            }
+    ctx.with_fields(parent_type_name, &iface.fields, |ctx, fields| {
+        if fields.is_empty() {
+            diagnostics::empty_interface(parent_type_name, ctx)
         }
-    }
+
+        objects::validate_fields(parent_type_name, fields, ctx);
+    });
 }
 
 pub(crate) fn validate_interface_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 60f13ec..6417402 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -17,29 +17,38 @@ pub(crate) fn validate_object<'a>(
             diagnostics::empty_object(parent_type_name, ctx)
         }
 
-        for field in fields {
-            object_field::validate_object_field(parent_type_name, field, ctx);
-            let type_name = extract_type_name(&field.node.ty.node.base);
-            let field_name = &field.node.name.node;
-            let location = || format!("{parent_type_name}.{field_name}");
-            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-                output_types::ValidateOutputTypeResult::Ok => (),
-                output_types::ValidateOutputTypeResult::UnknownType => {
-                    diagnostics::unknown_type(type_name, &location(), ctx);
-                }
-                output_types::ValidateOutputTypeResult::InputObject => {
-                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-                }
+        validate_fields(parent_type_name, fields, ctx);
+    });
+}
+
+/// Validate all the fields of an object or interface.
+pub(crate) fn validate_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::FieldDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
+        object_field::validate_object_field(parent_type_name, field, ctx);
+        let type_name = extract_type_name(&field.node.ty.node.base);
+        let field_name = &field.node.name.node;
+        let location = || format!("{parent_type_name}.{field_name}");
+        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
+            output_types::ValidateOutputTypeResult::Ok => (),
+            output_types::ValidateOutputTypeResult::UnknownType => {
+                diagnostics::unknown_type(type_name, &location(), ctx);
+            }
+            output_types::ValidateOutputTypeResult::InputObject => {
+                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
             }
         }
+    }
 
-        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
-        ctx.find_duplicates(field_names, |ctx, _, idx| {
-            let field_name = fields[idx].node.name.node.as_str();
-            ctx.push_error(miette::miette!(
-                "Duplicate field {field_name} already exists on {parent_type_name}"
-            ));
-        });
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
     });
 }
 
-- 
2.43.0


From fcd505fe4551919df14808d4e72bb759ddd48fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 23/83] fix: schema validation: validate names, uniqueness,
 extensions and cycles of input object fields

---
 .../graphql-schema-validation/src/context.rs  | 21 +++++++++++++
 .../src/validate/input_object_cycles.rs       | 15 ++++-----
 .../src/validate/input_objects.rs             | 31 ++++++++++++++++---
 .../src/validate/type_definition.rs           | 12 +++++--
 4 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 2bef82e..5ef362b 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -4,6 +4,7 @@ use async_graphql_value::Name;
 use std::collections::HashMap;
 
 type AstField = Positioned<ast::FieldDefinition>;
+type AstInputField = Positioned<ast::InputValueDefinition>;
 
 pub(crate) struct Context<'a> {
     /// The source document.
@@ -24,6 +25,9 @@ pub(crate) struct Context<'a> {
     // Definition name, extended fields. Only populated in the presence of extensions.
     pub(crate) extended_fields: HashMap<&'a str, Vec<&'a [AstField]>>,
 
+    // Input object name, extended fields. Only populated in the presence of extensions.
+    pub(crate) extended_input_fields: HashMap<&'a str, Vec<&'a [AstInputField]>>,
+
     // Union name, extended members. Only populated in the presence of extensions.
     pub(crate) extended_unions: HashMap<&'a str, Vec<&'a [Positioned<Name>]>>,
 
@@ -55,6 +59,7 @@ impl<'a> Context<'a> {
             directive_names: HashMap::default(),
             extended_interface_implementations: HashMap::default(),
             extended_fields: HashMap::default(),
+            extended_input_fields: HashMap::default(),
             extended_unions: HashMap::default(),
             extended_enums: HashMap::default(),
         }
@@ -83,6 +88,22 @@ impl<'a> Context<'a> {
         base.iter().chain(extended).collect()
     }
 
+    /// All the fields of an input object, including those defined in extensions.
+    pub(crate) fn all_input_fields(&self, name: &str) -> Vec<&'a AstInputField> {
+        let base: &'a [AstInputField] = match self.definition_names.get(name).map(|def| &def.node.kind) {
+            Some(ast::TypeKind::InputObject(input_object)) => &input_object.fields,
+            _ => &[],
+        };
+        let extended = self
+            .extended_input_fields
+            .get(name)
+            .into_iter()
+            .flatten()
+            .copied()
+            .flatten();
+        base.iter().chain(extended).collect()
+    }
+
     /// All the interfaces an object or interface implements, including those in extensions.
     pub(crate) fn all_implements(&self, name: &str) -> Vec<&'a Positioned<Name>> {
         let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|def| &def.node.kind) {
diff --git a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
index 1720577..06afb85 100644
--- a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
+++ b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
@@ -5,12 +5,10 @@ use std::collections::HashSet;
 /// http://spec.graphql.org/draft/#sec-Input-Objects.Type-Validation
 pub(crate) fn input_object_cycles<'a>(
     input_object_name: &'a str,
-    input_object: &'a ast::InputObjectType,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     ctx: &mut Context<'a>,
 ) {
-    if let Some(mut chain) =
-        references_input_object_rec(input_object_name, &input_object.fields, &mut HashSet::new(), ctx)
-    {
+    if let Some(mut chain) = references_input_object_rec(input_object_name, fields, &mut HashSet::new(), ctx) {
         chain.reverse();
         ctx.push_error(miette::miette!(r#"Cannot reference Input Object {input_object_name} within itself through a series of non-null fields: "{}""#, chain.join(".")));
     }
@@ -18,7 +16,7 @@ pub(crate) fn input_object_cycles<'a>(
 
 fn references_input_object_rec<'a>(
     name: &'a str,
-    fields: &'a [Positioned<ast::InputValueDefinition>],
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     visited: &mut HashSet<&'a str>,
     ctx: &mut Context<'a>,
 ) -> Option<Vec<&'a str>> {
@@ -39,11 +37,10 @@ fn references_input_object_rec<'a>(
             continue;
         }
 
-        if let Some(ast::TypeKind::InputObject(input_object)) =
-            ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
-        {
+        if let Some(ast::TypeKind::InputObject(_)) = ctx.get_type(field_type_name).map(|ty| &ty.node.kind) {
             visited.insert(field_type_name);
-            if let Some(mut chain) = references_input_object_rec(name, &input_object.fields, visited, ctx) {
+            let fields = ctx.all_input_fields(field_type_name);
+            if let Some(mut chain) = references_input_object_rec(name, &fields, visited, ctx) {
                 chain.push(field.name.node.as_str());
                 return Some(chain);
             }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 6dd7778..46a8001 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -3,7 +3,6 @@ use super::*;
 pub(crate) fn validate_input_object<'a>(
     parent_type_name: &'a str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
-    input_object: &'a ast::InputObjectType,
     ctx: &mut Context<'a>,
 ) {
     validate_directives(
@@ -12,17 +11,33 @@ pub(crate) fn validate_input_object<'a>(
         ctx,
     );
 
-    if input_object.fields.is_empty() {
+    let fields = ctx.all_input_fields(parent_type_name);
+
+    if fields.is_empty() {
         diagnostics::empty_input_object(parent_type_name, ctx);
     }
 
-    for field in &input_object.fields {
+    validate_input_fields(parent_type_name, &fields, ctx);
+}
+
+/// Validate all the fields of an input object.
+fn validate_input_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
         validate_directives(
             &field.node.directives,
             ast::DirectiveLocation::InputFieldDefinition,
             ctx,
         );
         let field_name = &field.node.name.node;
+
+        if field_name.starts_with("__") {
+            diagnostics::double_underscore_name(field_name, field.node.name.pos, ctx);
+        }
+
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
@@ -34,7 +49,15 @@ pub(crate) fn validate_input_object<'a>(
         }
     }
 
-    input_object_cycles::input_object_cycles(parent_type_name, input_object, ctx);
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+
+    input_object_cycles::input_object_cycles(parent_type_name, fields, ctx);
 }
 
 pub(crate) fn validate_input_object_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index eba2023..c83ff88 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -36,13 +36,19 @@ pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefi
                     .or_default()
                     .extend(iface.implements.iter());
             }
+            ast::TypeKind::InputObject(input_object) => {
+                ctx.extended_input_fields
+                    .entry(type_name)
+                    .or_default()
+                    .push(&input_object.fields);
+            }
             ast::TypeKind::Enum(enm) => {
                 ctx.extended_enums.entry(type_name).or_default().push(&enm.values);
             }
             ast::TypeKind::Union(union) => {
                 ctx.extended_unions.entry(type_name).or_default().push(&union.members);
             }
-            _ => (),
+            ast::TypeKind::Scalar => (),
         }
 
         ctx.extension_names.entry(type_name).or_default().push(typedef);
@@ -100,8 +106,8 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                     ast::TypeKind::InputObject(input_object) if is_extension => {
                         validate_input_object_extension(type_name, typedef, input_object, ctx);
                     }
-                    ast::TypeKind::InputObject(input_object) => {
-                        validate_input_object(type_name, typedef, input_object, ctx);
+                    ast::TypeKind::InputObject(_) => {
+                        validate_input_object(type_name, typedef, ctx);
                     }
 
                     ast::TypeKind::Union(_) if is_extension => validate_union_extension(type_name, typedef, ctx),
-- 
2.43.0


From 6a214c94563f0457fe27eaa0491ae7d35b002f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 24/83] fix: schema validation: validate the contents of
 extensions of types defined elsewhere

---
 .../graphql-schema-validation/src/context.rs  |  8 +++
 .../src/validate/enums.rs                     | 36 ++++++++------
 .../src/validate/input_objects.rs             |  5 +-
 .../src/validate/interfaces.rs                | 10 +++-
 .../src/validate/objects.rs                   |  8 ++-
 .../src/validate/type_definition.rs           | 12 ++---
 .../src/validate/unions.rs                    | 49 +++++++++++--------
 7 files changed, 85 insertions(+), 43 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 5ef362b..17c3ed2 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -77,6 +77,14 @@ impl<'a> Context<'a> {
         })
     }
 
+    /// Whether this is the first extension of a type that is not defined in this document. The
+    /// contents of all extensions of such a type are validated together.
+    pub(crate) fn is_first_extension_of_undefined_type(&self, typedef: &Positioned<ast::TypeDefinition>) -> bool {
+        let name = typedef.node.name.node.as_str();
+        let first = self.extension_names.get(name).and_then(|extensions| extensions.first());
+        !self.definition_names.contains_key(name) && first.is_some_and(|first| std::ptr::eq(*first, typedef))
+    }
+
     /// All the fields of an object or interface, including those defined in extensions.
     pub(crate) fn all_fields(&self, name: &str) -> Vec<&'a AstField> {
         let base: &'a [AstField] = match self.definition_names.get(name).map(|def| &def.node.kind) {
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 568d8d2..c5f3c7c 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -13,23 +13,27 @@ pub(crate) fn validate_enum_members<'a>(
             diagnostics::empty_enum(type_name, ctx);
         }
 
-        let value_names = values.iter().map(|v| v.node.value.node.as_str());
-        ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = values[idx].node.value.node.as_str();
-            ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
-        });
-
-        for value in values {
-            let value_name = value.node.value.node.as_str();
-            if value_name.starts_with("__") {
-                diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
-            }
-
-            validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
-        }
+        validate_values(type_name, values, ctx);
     });
 }
 
+fn validate_values<'a>(type_name: &str, values: &[&'a Positioned<ast::EnumValueDefinition>], ctx: &mut Context<'a>) {
+    let value_names = values.iter().map(|v| v.node.value.node.as_str());
+    ctx.find_duplicates(value_names, |ctx, idx, _| {
+        let value_name = values[idx].node.value.node.as_str();
+        ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
+    });
+
+    for value in values {
+        let value_name = value.node.value.node.as_str();
+        if value_name.starts_with("__") {
+            diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
+        }
+
+        validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
+    }
+}
+
 pub(crate) fn validate_enum_extension<'a>(
     type_name: &str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
@@ -37,6 +41,10 @@ pub(crate) fn validate_enum_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
+    if ctx.is_first_extension_of_undefined_type(type_definition) {
+        ctx.with_enum_values(type_name, &[], |ctx, values| validate_values(type_name, values, ctx));
+    }
+
     if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
         && !matches!(
             ctx.definition_names.get(type_name).map(|t| &t.node.kind),
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 46a8001..aac8269 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -63,7 +63,6 @@ fn validate_input_fields<'a>(
 pub(crate) fn validate_input_object_extension<'a>(
     type_name: &'a str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
-    _obj: &'a ast::InputObjectType,
     ctx: &mut Context<'a>,
 ) {
     validate_directives(
@@ -72,6 +71,10 @@ pub(crate) fn validate_input_object_extension<'a>(
         ctx,
     );
 
+    if ctx.is_first_extension_of_undefined_type(type_definition) {
+        validate_input_fields(type_name, &ctx.all_input_fields(type_name), ctx);
+    }
+
     if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
         && !matches!(
             ctx.definition_names.get(type_name).map(|t| &t.node.kind),
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index dd86b48..2f120b4 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -23,11 +23,19 @@ pub(crate) fn validate_interface<'a>(
 pub(crate) fn validate_interface_extension<'a>(
     type_name: &'a str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
-    _iface: &'a ast::InterfaceType,
     ctx: &mut Context<'a>,
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Interface, ctx);
 
+    if ctx.is_first_extension_of_undefined_type(type_definition) {
+        ctx.with_implements(type_name, &[], |ctx, implements| {
+            interface_implementers::validate_implements_list(type_name, implements, &[], ctx);
+        });
+        ctx.with_fields(type_name, &[], |ctx, fields| {
+            objects::validate_fields(type_name, fields, ctx)
+        });
+    }
+
     if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
         && !matches!(
             ctx.definition_names.get(type_name).map(|t| &t.node.kind),
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 6417402..7f447a1 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -55,11 +55,17 @@ pub(crate) fn validate_fields<'a>(
 pub(crate) fn validate_object_extension<'a>(
     type_name: &'a str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
-    _obj: &'a ast::ObjectType,
     ctx: &mut Context<'a>,
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Object, ctx);
 
+    if ctx.is_first_extension_of_undefined_type(type_definition) {
+        ctx.with_implements(type_name, &[], |ctx, implements| {
+            interface_implementers::validate_implements_list(type_name, implements, &[], ctx);
+        });
+        ctx.with_fields(type_name, &[], |ctx, fields| validate_fields(type_name, fields, ctx));
+    }
+
     if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
         && !matches!(
             ctx.definition_names.get(type_name).map(|t| &t.node.kind),
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index c83ff88..898d684 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -91,20 +91,20 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                 let is_extension = typedef.node.extend;
 
                 match &typedef.node.kind {
-                    ast::TypeKind::Object(obj) if is_extension => {
-                        validate_object_extension(type_name, typedef, obj, ctx);
+                    ast::TypeKind::Object(_) if is_extension => {
+                        validate_object_extension(type_name, typedef, ctx);
                     }
                     ast::TypeKind::Object(obj) => {
                         validate_object(type_name, typedef, obj, ctx);
                     }
 
-                    ast::TypeKind::Interface(iface) if is_extension => {
-                        validate_interface_extension(type_name, typedef, iface, ctx);
+                    ast::TypeKind::Interface(_) if is_extension => {
+                        validate_interface_extension(type_name, typedef, ctx);
                     }
                     ast::TypeKind::Interface(iface) => validate_interface(type_name, typedef, iface, ctx),
 
-                    ast::TypeKind::InputObject(input_object) if is_extension => {
-                        validate_input_object_extension(type_name, typedef, input_object, ctx);
+                    ast::TypeKind::InputObject(_) if is_extension => {
+                        validate_input_object_extension(type_name, typedef, ctx);
                     }
                     ast::TypeKind::InputObject(_) => {
                         validate_input_object(type_name, typedef, ctx);
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index bbbca7e..82fc70e 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -1,4 +1,5 @@
 use super::*;
+use async_graphql_value::Name;
 
 pub(crate) fn validate_union_extension<'a>(
     type_name: &str,
@@ -7,6 +8,10 @@ pub(crate) fn validate_union_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
+    if ctx.is_first_extension_of_undefined_type(type_definition) {
+        ctx.with_union_members(type_name, &[], |ctx, members| validate_members(type_name, members, ctx));
+    }
+
     if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
         && !matches!(
             ctx.definition_names.get(type_name).map(|t| &t.node.kind),
@@ -30,28 +35,32 @@ pub(crate) fn validate_union_members<'a>(
             diagnostics::empty_union(type_name, ctx);
         }
 
-        for member in members {
-            let member_name = member.node.as_str();
-            match ctx.get_type(member_name) {
-                Some(definition) => match definition.node.kind {
-                    ast::TypeKind::Object(_) => (), // ok
-                    _ => ctx.push_error(miette::miette!(
-                        "Cannot add non-object type {member_name} as member of union type {type_name}"
-                    )),
-                },
-                None => {
-                    ctx.push_error(miette::miette!(
-                        "Cannot add unknown type {member_name} as member of union type {type_name}"
-                    ));
-                }
+        validate_members(type_name, members, ctx);
+    });
+}
+
+fn validate_members<'a>(type_name: &str, members: &[&'a Positioned<Name>], ctx: &mut Context<'a>) {
+    for member in members {
+        let member_name = member.node.as_str();
+        match ctx.get_type(member_name) {
+            Some(definition) => match definition.node.kind {
+                ast::TypeKind::Object(_) => (), // ok
+                _ => ctx.push_error(miette::miette!(
+                    "Cannot add non-object type {member_name} as member of union type {type_name}"
+                )),
+            },
+            None => {
+                ctx.push_error(miette::miette!(
+                    "Cannot add unknown type {member_name} as member of union type {type_name}"
+                ));
             }
         }
+    }
 
-        ctx.find_duplicates(members.iter().map(|name| name.node.as_str()), |ctx, first, _| {
-            let name = &members[first].node;
-            ctx.push_error(miette::miette!(
-                r#"Union type "{type_name}" can only include type "{name}" once."#
-            ));
-        });
+    ctx.find_duplicates(members.iter().map(|name| name.node.as_str()), |ctx, first, _| {
+        let name = &members[first].node;
+        ctx.push_error(miette::miette!(
+            r#"Union type "{type_name}" can only include type "{name}" once."#
+        ));
     });
 }
-- 
2.43.0


From ec24dc3dc45b3e4cdc5c3d5c9d712efc52e7ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 25/83] fix: schema validation: root types of the schema
 definition and its extensions together

---
 .../graphql-schema-validation/src/validate.rs |  4 --
 .../src/validate/schema_definition.rs         | 50 ++++++++++++-------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index 0fb456c..e6cf071 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -43,10 +43,6 @@ pub(crate) fn validate<'a>(parsed_ast: &'a ast::ServiceDocument, ctx: &mut Conte
 
     validate_schema_definitions(&schema_definitions, ctx);
 
-    if schema_definitions.is_empty() {
-        validate_root_types(ctx);
-    }
-
     validate_definitions_second_pass(parsed_ast, ctx);
 }
 
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index 4f6d5bd..d2be51e 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -29,9 +29,11 @@ pub(crate) fn validate_schema_definitions<'a>(schema_definitions: &[SchemaDefini
             }
         }
     }
+
+    validate_root_types(schema_definitions, ctx);
 }
 
-pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'a>, ctx: &mut Context<'a>) {
+fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'a>, ctx: &mut Context<'a>) {
     let pos = def.pos;
 
     let names = [
@@ -40,17 +42,6 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
         (def.subscription, "Subscription"),
     ];
 
-    for idx in 0..(names.len()) {
-        let name = &names[idx];
-        let name = name.0.unwrap_or(name.1);
-        for other_name in names[idx..].iter().skip(1) {
-            let other_name = other_name.0.unwrap_or(other_name.1);
-            if name == other_name {
-                ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
-            }
-        }
-    }
-
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
@@ -80,12 +71,37 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     }
 }
 
-pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
-    for name in ["Query", "Mutation", "Subscription"] {
-        if let Some(def) = ctx.get_type(name)
-            && !matches!(def.node.kind, ast::TypeKind::Object(_))
+/// Validate the root types of the whole schema. The default names apply without a schema definition.
+fn validate_root_types(schema_definitions: &[SchemaDefinition<'_>], ctx: &mut Context<'_>) {
+    let has_definition = schema_definitions.iter().any(|def| !def.is_extension);
+    let mut roots = Vec::with_capacity(3);
+
+    let explicit_roots = [
+        ("Query", schema_definitions.iter().rev().find_map(|def| def.query)),
+        ("Mutation", schema_definitions.iter().rev().find_map(|def| def.mutation)),
+        (
+            "Subscription",
+            schema_definitions.iter().rev().find_map(|def| def.subscription),
+        ),
+    ];
+
+    for (default, explicit) in explicit_roots {
+        if let Some(name) = explicit {
+            roots.push(name);
+        } else if let Some(def) = ctx.get_type(default)
+            && !has_definition
         {
-            ctx.push_error(miette::miette!("{name} should be an object"));
+            if !matches!(def.node.kind, ast::TypeKind::Object(_)) {
+                ctx.push_error(miette::miette!("{default} should be an object"));
+            }
+
+            roots.push(default);
+        }
+    }
+
+    for (idx, name) in roots.iter().enumerate() {
+        if roots[..idx].contains(name) {
+            ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
         }
     }
 }
-- 
2.43.0


From 303f9dcfd3b424280b1dd5cd588ce85a40d568c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 26/83] fix: schema validation: check the directives of scalars

---
 .../graphql-schema-validation/src/validate/type_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 898d684..d8e8619 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -121,7 +121,9 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                     }
 
                     ast::TypeKind::Scalar if is_extension => validate_scalar_extension(type_name, typedef, ctx),
-                    ast::TypeKind::Scalar => (),
+                    ast::TypeKind::Scalar => {
+                        validate_directives(&typedef.node.directives, ast::DirectiveLocation::Scalar, ctx);
+                    }
                 }
             }
         }
-- 
2.43.0


From f9e5573b13737d48726c963d24a93e2a8ebd231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 27/83] fix: composition: types of different list depth never
 compose

---
 .../src/subgraphs/field_types.rs                | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..283307c 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -33,9 +33,15 @@ impl FieldType {
             return None;
         }
 
-        let mut self_wrappers = self.wrapping.list_wrappings();
-        let mut other_wrappers = other.wrapping.list_wrappings();
-        let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
+        let self_wrappers = self.wrapping.list_wrappings();
+        let other_wrappers = other.wrapping.list_wrappings();
+
+        // The wrappers should have the same level of nesting.
+        if self_wrappers.len() != other_wrappers.len() {
+            return None;
+        }
+
+        let mut zipped_wrappers = self_wrappers.zip(other_wrappers).peekable();
 
         // Check that the inner requiredness matches if there are wrappers.
         if zipped_wrappers.peek().is_some() && (self.inner_is_required() != other.inner_is_required()) {
@@ -44,11 +50,6 @@ impl FieldType {
 
         while let Some((self_wrapper, other_wrapper)) = zipped_wrappers.next() {
             if zipped_wrappers.peek().is_none() {
-                // The wrappers should have the same level of nesting.
-                if self_wrappers.next().is_some() || other_wrappers.next().is_some() {
-                    return None;
-                }
-
                 // We reached the outermost list wrappers: return which is required.
                 return Some(matches!(other_wrapper, ListWrapping::ListNonNull));
             }
-- 
2.43.0


From 85b817a12876ae2c1b073c13d6185057cf975285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 28/83] fix: composition: same-named types of different kinds
 never compose

---
 crates/graphql-composition/src/compose.rs     | 44 ++++++++++++-------
 .../src/compose/entity_interface.rs           |  9 ++++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..11626c2 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -39,6 +39,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
+        if !validate_same_kind(ctx, first, definitions) {
+            return;
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
@@ -53,26 +57,36 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
     directive_definitions::compose_directive_definitions(ctx);
 }
 
+/// Definitions with the same name in different subgraphs can only be merged if they are of the same kind.
+fn validate_same_kind(ctx: &mut Context<'_>, first: &DefinitionView<'_>, definitions: &[DefinitionView<'_>]) -> bool {
+    let Some(incompatible) = definitions.iter().find(|definition| definition.kind != first.kind) else {
+        return true;
+    };
+
+    push_kind_mismatch(ctx, first, incompatible);
+
+    false
+}
+
+fn push_kind_mismatch(ctx: &mut Context<'_>, first: &DefinitionView<'_>, incompatible: &DefinitionView<'_>) {
+    let first_kind = first.kind;
+    let second_kind = incompatible.kind;
+    let name = ctx.subgraphs[first.name].as_ref();
+    let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
+    let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
+    ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(
+        format!(
+            "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
+        ),
+        CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch,
+    );
+}
+
 fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
     let is_shareable = definitions
         .iter()
         .any(|definition| definition.directives.shareable(ctx.subgraphs));
 
-    if let Some(incompatible) = definitions
-        .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
-    {
-        let first_kind = first.kind;
-        let second_kind = incompatible.kind;
-        let name = ctx.subgraphs[first.name].as_ref();
-        let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
-        let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
-        ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
-            "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
-        ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
-    }
-
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index 8393118..efbfcf9 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -49,6 +49,15 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
         return;
     };
 
+    // An entity interface can only be an interface, or an object with @interfaceObject.
+    if let Some(incompatible) = definitions
+        .iter()
+        .find(|def| !matches!(def.kind, DefinitionKind::Interface | DefinitionKind::Object))
+    {
+        push_kind_mismatch(ctx, interface_def, incompatible);
+        return;
+    }
+
     // More than one interface in subgraphs.
     if interfaces.next().is_some() {
         let all_implementers: BTreeSet<_> = interface_defs()
-- 
2.43.0


From e6d67b6bed0dc973d313c5219521c75a7c327ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 29/83] fix: composition: visible elements of types left out of
 the API schema are rejected, inaccessible union members and emptied types are
 not rendered

---
 .../render_sdl/render_api_sdl.rs              | 33 ++++++-
 crates/graphql-composition/src/lib.rs         |  4 +-
 crates/graphql-composition/src/validate.rs    |  3 +
 .../src/validate/inaccessible.rs              | 98 +++++++++++++++++++
 4 files changed, 135 insertions(+), 3 deletions(-)
 create mode 100644 crates/graphql-composition/src/validate/inaccessible.rs

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..a4b45b5 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -40,6 +40,13 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            if graph
+                .iter_enum_values(r#enum.id())
+                .all(|variant| is_inaccessible(&variant.directives))
+            {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, r#enum.description, "", graph)?;
@@ -112,6 +119,13 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            if graph[interface.fields.clone()]
+                .iter()
+                .all(|field| is_inaccessible(&field.directives))
+            {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, interface.description, "", graph)?;
@@ -148,6 +162,13 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            if graph[input_object.fields]
+                .iter()
+                .all(|field| is_inaccessible(&field.directives))
+            {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, input_object.description, "", graph)?;
@@ -189,6 +210,16 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .peekable();
+
+            if members.peek().is_none() {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, union.description, "", graph)?;
@@ -197,8 +228,6 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
-
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
                 f.write_str(graph.at(*member).then(|obj| obj.name).as_str())?;
diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index d0d4101..065fc13 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -64,8 +64,10 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
     } else {
         let federated_graph = emit_federated_graph(context.into_ir(), subgraphs);
 
+        validate::validate_inaccessible_types(&federated_graph, &mut diagnostics);
+
         CompositionResult {
-            federated_graph: Some(federated_graph),
+            federated_graph: (!diagnostics.any_fatal()).then_some(federated_graph),
             diagnostics,
         }
     }
diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index fa5678f..ca8bc26 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -3,9 +3,12 @@ use crate::{federated_graph::OverrideLabel, subgraphs};
 pub(crate) mod composite_schemas;
 mod directives;
 mod extension_names;
+mod inaccessible;
 mod selection;
 mod subgraph_names;
 
+pub(crate) use inaccessible::validate_inaccessible_types;
+
 type ValidateContext<'a> = crate::ComposeContext<'a>;
 
 /// Pre-composition validations happen here.
diff --git a/crates/graphql-composition/src/validate/inaccessible.rs b/crates/graphql-composition/src/validate/inaccessible.rs
new file mode 100644
index 0000000..2ca1872
--- /dev/null
+++ b/crates/graphql-composition/src/validate/inaccessible.rs
@@ -0,0 +1,98 @@
+use crate::{
+    Diagnostics,
+    federated_graph::{Definition, Directive, FederatedGraph, InputValueDefinition},
+};
+
+/// Elements that are part of the API schema cannot be of a type that is left out of it, whether it is `@inaccessible` in the same or in
+/// another subgraph, or all that it consists of is.
+pub(crate) fn validate_inaccessible_types(graph: &FederatedGraph, diagnostics: &mut Diagnostics) {
+    let mut check = |path: String, definition: Definition| {
+        if is_left_out(graph, definition) {
+            diagnostics.push_fatal(format!(
+                "`{path}` is of the type `{}` that is @inaccessible, or consists of @inaccessible elements only, but is itself not marked as @inaccessible.",
+                graph.definition_name(definition)
+            ));
+        }
+    };
+
+    let check_inputs = |parent: &str, inputs: &[InputValueDefinition], check: &mut dyn FnMut(String, Definition)| {
+        for input in inputs.iter().filter(|input| !is_inaccessible(&input.directives)) {
+            check(format!("{parent}.{}", graph[input.name]), input.r#type.definition);
+        }
+    };
+
+    let objects = graph
+        .objects
+        .iter()
+        .map(|object| (object.name, &object.directives, &object.fields));
+    let interfaces = graph
+        .interfaces
+        .iter()
+        .map(|interface| (interface.name, &interface.directives, &interface.fields));
+
+    for (name, directives, fields) in objects.chain(interfaces) {
+        if is_inaccessible(directives) {
+            continue;
+        }
+
+        for field in graph[fields.clone()]
+            .iter()
+            .filter(|field| !is_inaccessible(&field.directives))
+        {
+            let path = format!("{}.{}", graph[name], graph[field.name]);
+            check_inputs(&path, &graph[field.arguments], &mut check);
+            check(path, field.r#type.definition);
+        }
+    }
+
+    for input_object in &graph.input_objects {
+        if !is_inaccessible(&input_object.directives) {
+            check_inputs(&graph[input_object.name], &graph[input_object.fields], &mut check);
+        }
+    }
+}
+
+fn is_inaccessible(directives: &[Directive]) -> bool {
+    directives
+        .iter()
+        .any(|directive| matches!(directive, Directive::Inaccessible))
+}
+
+fn is_left_out(graph: &FederatedGraph, definition: Definition) -> bool {
+    match definition {
+        Definition::Scalar(id) => is_inaccessible(&graph[id].directives),
+        Definition::Object(id) => {
+            let object = graph.at(id);
+            is_inaccessible(&object.directives)
+                || graph[object.fields.clone()]
+                    .iter()
+                    .all(|field| is_inaccessible(&field.directives))
+        }
+        Definition::Interface(id) => {
+            let interface = graph.at(id);
+            is_inaccessible(&interface.directives)
+                || graph[interface.fields.clone()]
+                    .iter()
+                    .all(|field| is_inaccessible(&field.directives))
+        }
+        Definition::Union(id) => {
+            is_inaccessible(&graph[id].directives)
+                || graph[id]
+                    .members
+                    .iter()
+                    .all(|member| is_inaccessible(&graph.at(*member).directives))
+        }
+        Definition::Enum(id) => {
+            is_inaccessible(&graph[id].directives)
+                || graph
+                    .iter_enum_values(id)
+                    .all(|value| is_inaccessible(&value.directives))
+        }
+        Definition::InputObject(id) => {
+            is_inaccessible(&graph[id].directives)
+                || graph[graph[id].fields]
+                    .iter()
+                    .all(|field| is_inaccessible(&field.directives))
+        }
+    }
+}
-- 
2.43.0


From 603d528a259104e5c07f9fc8e42dc5452fbbf670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 30/83] fix: composition: control characters, quotes and
 descriptions of built-in scalars in rendered SDL

---
 .../federated_graph/render_sdl/display_utils.rs    | 14 +++++++++++++-
 .../render_sdl/render_federated_sdl.rs             |  8 ++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..d5c362a 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
@@ -68,6 +68,16 @@ impl fmt::Display for Description<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Description(description, indentation) = self;
 
+        // There are no escape sequences for control characters in block strings.
+        if description
+            .chars()
+            .any(|c| c.is_control() && !matches!(c, '\n' | '\r' | '\t'))
+        {
+            f.write_str(indentation)?;
+            display_graphql_string_literal(description, f)?;
+            return f.write_char('\n');
+        }
+
         writeln!(f, r#"{indentation}""""#)?;
 
         let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
@@ -79,6 +89,8 @@ impl fmt::Display for Description<'_> {
                 continue;
             }
 
+            let line = line.replace(r#"""""#, r#"\""""#);
+
             writeln!(f, r#"{indentation}{line}"#)?;
         }
 
diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
index a96cd89..15aeb9f 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
@@ -18,14 +18,14 @@ pub fn render_federated_sdl(graph: &FederatedGraph) -> Result<String, fmt::Error
         for scalar in graph.iter_scalar_definitions() {
             let namespace = scalar.namespace.map(|namespace| &graph[namespace]);
             let name = scalar.then(|scalar| scalar.name).as_str();
-            if let Some(description) = scalar.description {
-                Description(&graph[description], "").fmt(f)?;
-            }
-
             if BUILTIN_SCALARS.contains(&name) {
                 continue;
             }
 
+            if let Some(description) = scalar.description {
+                Description(&graph[description], "").fmt(f)?;
+            }
+
             f.write_str("scalar ")?;
 
             if let Some(namespace) = namespace {
-- 
2.43.0


From 8b79f558f6f4f52ef297c4a07f906883a139b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 31/83] fix: composition: floats keep being floats in rendered
 SDL

---
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index d5c362a..0d76f7c 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -108,7 +108,7 @@ impl fmt::Display for ValueDisplay<'_> {
             Value::Null => f.write_str("null"),
             Value::String(s) => display_graphql_string_literal(&graph[*s], f),
             Value::Int(i) => Display::fmt(i, f),
-            Value::Float(val) => Display::fmt(val, f),
+            Value::Float(val) => fmt::Debug::fmt(val, f),
             Value::UnboundEnumValue(val) => f.write_str(&graph[*val]),
             Value::EnumValue(val) => f.write_str(&graph[graph[*val].value]),
             Value::Boolean(true) => f.write_str("true"),
-- 
2.43.0


From 5802dc40cb15fb3a97c22ca97157041838363719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 32/83] fix: composition: root types can be referenced under
 the names they have in subgraphs

---
 crates/graphql-composition/src/ingest_subgraph.rs     | 11 ++++++++---
 .../graphql-composition/src/ingest_subgraph/fields.rs |  4 +++-
 .../src/ingest_subgraph/schema_definitions.rs         | 11 +++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph.rs b/crates/graphql-composition/src/ingest_subgraph.rs
index fbead94..33fccd3 100644
--- a/crates/graphql-composition/src/ingest_subgraph.rs
+++ b/crates/graphql-composition/src/ingest_subgraph.rs
@@ -71,9 +71,12 @@ fn ingest_top_level_definitions(ctx: &mut Context<'_>) {
                     ast::TypeDefinition::Union(_) if type_name == ENTITY_UNION_NAME => continue,
 
                     ast::TypeDefinition::Object(_) => {
+                        // Definitions are composed in the order their names appear in subgraphs.
+                        ctx.subgraphs.strings.intern(type_name);
+
                         let definition_id = ctx.subgraphs.get_or_push_definition(
                             subgraph_id,
-                            type_name,
+                            ctx.root_type_matcher.federated_name(type_name),
                             DefinitionKind::Object,
                             description,
                         );
@@ -163,7 +166,8 @@ fn ingest_definition_bodies(ctx: &mut Context<'_>) {
                 };
 
                 for member in union.members() {
-                    let Some(member_id) = ctx.subgraphs.definition_by_name(member.name(), subgraph_id) else {
+                    let member_name = ctx.root_type_matcher.federated_name(member.name());
+                    let Some(member_id) = ctx.subgraphs.definition_by_name(member_name, subgraph_id) else {
                         ctx.subgraphs.push_ingestion_diagnostic(
                             subgraph_id,
                             format!(
@@ -226,7 +230,8 @@ fn ingest_definition_bodies(ctx: &mut Context<'_>) {
             }
             ast::TypeDefinition::Object(_) if definition.name() == SERVICE_TYPE_NAME => continue,
             ast::TypeDefinition::Object(object_type) => {
-                let Some(definition_id) = ctx.subgraphs.definition_by_name(definition.name(), subgraph_id) else {
+                let definition_name = ctx.root_type_matcher.federated_name(definition.name());
+                let Some(definition_id) = ctx.subgraphs.definition_by_name(definition_name, subgraph_id) else {
                     ctx.subgraphs.push_ingestion_diagnostic(
                         subgraph_id,
                         format!(
diff --git a/crates/graphql-composition/src/ingest_subgraph/fields.rs b/crates/graphql-composition/src/ingest_subgraph/fields.rs
index 920168c..95ff3a4 100644
--- a/crates/graphql-composition/src/ingest_subgraph/fields.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/fields.rs
@@ -95,7 +95,9 @@ pub(super) fn ingest_fields(
             .description()
             .map(|description| ctx.subgraphs.strings.intern(description.to_cow()));
 
-        let field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let mut field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let type_name = ctx.root_type_matcher.federated_name(field.ty().name());
+        field_type.definition_name_id = ctx.subgraphs.strings.intern(type_name);
         let directives = ctx.subgraphs.new_directive_site();
         let field_name_id = ctx.subgraphs.strings.intern(field_name);
 
diff --git a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
index b705ee9..146f46b 100644
--- a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
@@ -154,6 +154,17 @@ impl RootTypeMatcher<'_> {
         matches!(self.match_name(name), RootTypeMatch::Query)
     }
 
+    /// The name of an object type in the federated graph: root types have their default names there, whatever their names
+    /// are in the subgraph.
+    pub(crate) fn federated_name<'a>(&self, name: &'a str) -> &'a str {
+        match self.match_name(name) {
+            RootTypeMatch::Query => "Query",
+            RootTypeMatch::Mutation => "Mutation",
+            RootTypeMatch::Subscription => "Subscription",
+            RootTypeMatch::NotRootButHasDefaultRootName | RootTypeMatch::NotRoot => name,
+        }
+    }
+
     pub(crate) fn match_name(&self, name: &str) -> RootTypeMatch {
         for (name_from_definition, default_name, match_case) in [
             (self.query, "Query", RootTypeMatch::Query),
-- 
2.43.0


From f26b379828dfe9b85d64bef8171ae5a9a8edb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 33/83] fix: composition: references to types, fields and
 arguments that are not composed are rejected

---
 crates/graphql-composition/src/lib.rs         |  10 +-
 crates/graphql-composition/src/validate.rs    |   2 +
 .../src/validate/references.rs                | 179 ++++++++++++++++++
 .../src/validate/selection.rs                 |  11 +-
 4 files changed, 198 insertions(+), 4 deletions(-)
 create mode 100644 crates/graphql-composition/src/validate/references.rs

diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index 065fc13..127f029 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -56,13 +56,19 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
 
     compose_subgraphs(&mut context);
 
-    if context.diagnostics.any_fatal() {
+    let ir = context.into_ir();
+
+    if !diagnostics.any_fatal() {
+        validate::validate_references(&ir, subgraphs, &mut diagnostics);
+    }
+
+    if diagnostics.any_fatal() {
         CompositionResult {
             federated_graph: None,
             diagnostics,
         }
     } else {
-        let federated_graph = emit_federated_graph(context.into_ir(), subgraphs);
+        let federated_graph = emit_federated_graph(ir, subgraphs);
 
         validate::validate_inaccessible_types(&federated_graph, &mut diagnostics);
 
diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index ca8bc26..ffc86b2 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -4,10 +4,12 @@ pub(crate) mod composite_schemas;
 mod directives;
 mod extension_names;
 mod inaccessible;
+mod references;
 mod selection;
 mod subgraph_names;
 
 pub(crate) use inaccessible::validate_inaccessible_types;
+pub(crate) use references::validate_references;
 
 type ValidateContext<'a> = crate::ComposeContext<'a>;
 
diff --git a/crates/graphql-composition/src/validate/references.rs b/crates/graphql-composition/src/validate/references.rs
new file mode 100644
index 0000000..fcf23e1
--- /dev/null
+++ b/crates/graphql-composition/src/validate/references.rs
@@ -0,0 +1,179 @@
+use crate::{
+    Diagnostics,
+    composition_ir::{CompositionIr, Directive, FieldIr},
+    federated_graph::{self as federated, Definition},
+    subgraphs::{self, Subgraphs},
+};
+use std::collections::HashMap;
+
+/// Everything that composed definitions refer to must itself be composed. Subgraphs can refer to types they do not define, and to fields
+/// and arguments that are not part of the federated graph.
+pub(crate) fn validate_references(ir: &CompositionIr, subgraphs: &Subgraphs, diagnostics: &mut Diagnostics) {
+    let mut fields = HashMap::with_capacity(ir.fields.len());
+    for field in &ir.fields {
+        fields.insert((field.parent_definition_name, field.field_name), field);
+    }
+
+    let mut references = References {
+        ir,
+        subgraphs,
+        diagnostics,
+        fields,
+    };
+
+    references.validate_types();
+    references.validate_interface_implementations();
+    references.validate_selections();
+}
+
+struct References<'a> {
+    ir: &'a CompositionIr,
+    subgraphs: &'a Subgraphs,
+    diagnostics: &'a mut Diagnostics,
+    fields: HashMap<(federated::StringId, subgraphs::StringId), &'a FieldIr>,
+}
+
+impl<'a> References<'a> {
+    fn lookup(&self, name: subgraphs::StringId) -> Option<(federated::StringId, Definition)> {
+        let name = self.ir.strings.lookup(&self.subgraphs[name])?;
+        Some((name, *self.ir.definitions_by_name.get(&name)?))
+    }
+
+    fn validate_types(&mut self) {
+        let (ir, subgraphs) = (self.ir, self.subgraphs);
+
+        for field in &ir.fields {
+            self.validate_type(field.field_type, || {
+                format!(
+                    "`{}.{}`",
+                    &ir.strings[field.parent_definition_name], subgraphs[field.field_name]
+                )
+            });
+        }
+
+        let directive_arguments = ir
+            .directive_definitions
+            .iter()
+            .flat_map(|definition| &definition.arguments);
+
+        for input_value in ir.input_value_definitions.iter().chain(directive_arguments) {
+            self.validate_type(input_value.r#type, || {
+                format!("the argument or input field `{}`", &ir.strings[input_value.name])
+            });
+        }
+    }
+
+    fn validate_type(&mut self, r#type: subgraphs::FieldType, location: impl FnOnce() -> String) {
+        if self.lookup(r#type.definition_name_id).is_none() {
+            self.diagnostics.push_fatal(format!(
+                "The type `{}` of {} is not defined in any subgraph.",
+                self.subgraphs[r#type.definition_name_id],
+                location()
+            ));
+        }
+    }
+
+    fn validate_interface_implementations(&mut self) {
+        for (interface, implementer) in self.subgraphs.iter_interface_impls() {
+            if !matches!(self.lookup(interface), Some((_, Definition::Interface(_))))
+                || !matches!(
+                    self.lookup(implementer),
+                    Some((_, Definition::Object(_) | Definition::Interface(_)))
+                )
+            {
+                self.diagnostics.push_fatal(format!(
+                    "`{}` cannot implement `{}`.",
+                    self.subgraphs[implementer], self.subgraphs[interface],
+                ));
+            }
+        }
+    }
+
+    fn validate_selections(&mut self) {
+        let objects = self.ir.objects.iter().map(|(object, dirs)| (object.name, dirs));
+        let interfaces = self
+            .ir
+            .interfaces
+            .iter()
+            .map(|(interface, dirs)| (interface.name, dirs));
+
+        for (name, directives) in objects.chain(interfaces) {
+            for directive in directives {
+                if let Directive::JoinType(join_type) = directive
+                    && let Some(key) = join_type.key
+                {
+                    self.validate_selection_set(self.subgraphs.at(key).fields(), name, "key");
+                }
+            }
+        }
+
+        for field in &self.ir.fields {
+            for directive in &field.directives {
+                let Directive::JoinField(join_field) = directive else {
+                    continue;
+                };
+                let directives = self.subgraphs.at(join_field.source_field).directives;
+
+                if let Some(selection_set) = directives.requires(self.subgraphs) {
+                    self.validate_selection_set(selection_set, field.parent_definition_name, "requires");
+                }
+
+                if let Some(selection_set) = directives.provides(self.subgraphs)
+                    && let Some((name, _)) = self.lookup(field.field_type.definition_name_id)
+                {
+                    self.validate_selection_set(selection_set, name, "provides");
+                }
+            }
+        }
+    }
+
+    fn validate_selection_set(
+        &mut self,
+        selection_set: &[subgraphs::Selection],
+        target: federated::StringId,
+        directive_name: &str,
+    ) {
+        for selection in selection_set {
+            match selection {
+                subgraphs::Selection::Field(selection) => {
+                    if self.subgraphs[selection.field].as_ref() == "__typename" {
+                        continue;
+                    }
+
+                    let Some(field) = self.fields.get(&(target, selection.field)).copied() else {
+                        self.diagnostics.push_fatal(format!(
+                            "The field `{}.{}` selected in @{directive_name} is not part of the federated graph.",
+                            &self.ir.strings[target], self.subgraphs[selection.field]
+                        ));
+                        continue;
+                    };
+
+                    let (start, len) = field.arguments;
+                    let arguments = &self.ir.input_value_definitions[usize::from(start)..][..len];
+
+                    for (argument, _) in &selection.arguments {
+                        let argument = self.subgraphs[*argument].as_ref();
+                        if arguments.iter().all(|arg| self.ir.strings[arg.name] != *argument) {
+                            self.diagnostics.push_fatal(format!(
+                                "The argument `{}.{}({argument}:)` used in @{directive_name} is not part of the federated graph.",
+                                &self.ir.strings[target],
+                                self.subgraphs[selection.field],
+                            ));
+                        }
+                    }
+
+                    if let Some((name, _)) = self.lookup(field.field_type.definition_name_id) {
+                        self.validate_selection_set(&selection.subselection, name, directive_name);
+                    }
+                }
+                subgraphs::Selection::InlineFragment { on, subselection, .. } => match self.lookup(*on) {
+                    Some((name, _)) => self.validate_selection_set(subselection, name, directive_name),
+                    None => self.diagnostics.push_fatal(format!(
+                        "The type `{}` used in @{directive_name} is not part of the federated graph.",
+                        self.subgraphs[*on]
+                    )),
+                },
+            }
+        }
+    }
+}
diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 793194f..124335f 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -225,10 +225,17 @@ fn validate_field_selection(
         return;
     }
 
-    let referenced_type = ctx
+    let Some(referenced_type) = ctx
         .subgraphs
         .definition_by_name_id(field.r#type.definition_name_id, on_definition.subgraph_id)
-        .expect("type is defined in subgraph");
+    else {
+        return ctx.diagnostics.push_fatal(format!(
+            "[{subgraph_name}] Error in @{directive_name} at {directive_path}: no selection is possible on the {field_name} field of {definition_name}",
+            field_name = ctx.subgraphs[field.name],
+            definition_name = ctx.subgraphs[on_definition.name],
+            directive_path = directive_path(),
+        ));
+    };
 
     for selection in &selection.subselection {
         validate_selection(
-- 
2.43.0


From 5a6bae95e28b95c87f9c2e7ca8e31e1e38aeb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 34/83] fix: composition: fields of entity interfaces are not
 added to implementers that other subgraphs define them for, and keep their
 directives

---
 .../src/compose/entity_interface.rs           | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index efbfcf9..44ab772 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -159,8 +159,19 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
             ctx.insert_field(field.clone());
 
             // Adding only the empty `@join__field` directive indicating it's coming from somewhere
-            // else.
-            field.directives = vec![ir::Directive::JoinEntityInterfaceField];
+            // else. The directives that are not about subgraphs apply to the fields of the implementers, too.
+            field.directives.retain(|directive| {
+                !matches!(
+                    directive,
+                    ir::Directive::JoinField(_)
+                        | ir::Directive::CompositeRequire { .. }
+                        | ir::Directive::CompositeIs { .. }
+                        | ir::Directive::CompositeInternal(_)
+                        | ir::Directive::CompositeLookup(_)
+                        | ir::Directive::CompositeDerive(_)
+                )
+            });
+            field.directives.push(ir::Directive::JoinEntityInterfaceField);
             (field.field_name, field)
         })
         .collect();
@@ -192,8 +203,13 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
 
         let fields_to_add = fields_to_add
             .iter()
-            // Avoid adding fields that are already present on the object by virtue of the object implementing the interface.
-            .filter(|(name, _)| object.id.field_by_name(ctx.subgraphs, *name).is_none())
+            // Avoid adding fields that are already present on the object by virtue of the object implementing the interface,
+            // or because another subgraph defines them.
+            .filter(|(name, _)| {
+                ctx.subgraphs
+                    .iter_definitions_with_name(object.name)
+                    .all(|(_, definition)| definition.field_by_name(ctx.subgraphs, *name).is_none())
+            })
             .map(|(_, field_ir)| field_ir);
 
         for field_ir in fields_to_add {
-- 
2.43.0


From fd2d138dd86b6d3ae811868e33d657667e4a748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 35/83] fix: composition: keys that cannot be parsed are
 rejected

---
 crates/graphql-composition/src/ingest_subgraph/directives.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives.rs b/crates/graphql-composition/src/ingest_subgraph/directives.rs
index ae660d9..a76f38a 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives.rs
@@ -324,7 +324,9 @@ pub(super) fn ingest_keys(
                     .and_then(|v| v.value().as_bool())
                     .unwrap_or(true); // defaults to true
 
-            ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable).ok();
+            if let Err(err) = ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable) {
+                ctx.subgraphs.push_ingestion_diagnostic(ctx.subgraph_id, err);
+            }
         }
     }
 }
-- 
2.43.0


From 3d3adfbd48884741c547a4c146651e6e8f913101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 36/83] fix: composition: @policy and @requiresScopes arguments
 that are not lists of lists are coerced to them

---
 .../src/ingest_subgraph/directives.rs         | 61 ++++++++-----------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives.rs b/crates/graphql-composition/src/ingest_subgraph/directives.rs
index a76f38a..56aa4d5 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives.rs
@@ -143,23 +143,8 @@ pub(super) fn ingest_directives(
                     .set_override(directive_site_id, subgraphs::OverrideDirective { from, label });
             }
             DirectiveNameMatch::Policy => {
-                let policies = directive
-                    .argument("policies")
-                    .into_iter()
-                    .flat_map(|scopes| scopes.value().as_items())
-                    .flatten();
-                for policy in policies {
-                    let inner_policies: Vec<subgraphs::StringId> = match policy {
-                        ConstValue::List(policies) => policies
-                            .items()
-                            .filter_map(|policy| match policy {
-                                ConstValue::String(string) => Some(ctx.subgraphs.strings.intern(string.as_str())),
-                                _ => None,
-                            })
-                            .collect(),
-                        _ => vec![],
-                    };
-                    ctx.subgraphs.insert_policy(directive_site_id, inner_policies);
+                for policies in ingest_string_lists(ctx, directive.argument("policies").map(|arg| arg.value())) {
+                    ctx.subgraphs.insert_policy(directive_site_id, policies);
                 }
             }
             DirectiveNameMatch::Provides => {
@@ -185,23 +170,8 @@ pub(super) fn ingest_directives(
                 };
             }
             DirectiveNameMatch::RequiresScopes => {
-                let scopes = directive
-                    .argument("scopes")
-                    .into_iter()
-                    .flat_map(|scopes| scopes.value().as_items())
-                    .flatten();
-                for scope in scopes {
-                    let inner_scopes: Vec<subgraphs::StringId> = match scope {
-                        ConstValue::List(scopes) => scopes
-                            .items()
-                            .filter_map(|scope| match scope {
-                                ConstValue::String(string) => Some(ctx.subgraphs.strings.intern(string.as_str())),
-                                _ => None,
-                            })
-                            .collect(),
-                        _ => vec![],
-                    };
-                    ctx.subgraphs.append_required_scopes(directive_site_id, inner_scopes);
+                for scopes in ingest_string_lists(ctx, directive.argument("scopes").map(|arg| arg.value())) {
+                    ctx.subgraphs.append_required_scopes(directive_site_id, scopes);
                 }
             }
             DirectiveNameMatch::Shareable => {
@@ -294,6 +264,29 @@ pub(super) fn ingest_directives(
     }
 }
 
+/// An argument of the type `[[String!]!]!`. A value that is not a list is the same as the list of just that value.
+fn ingest_string_lists(ctx: &mut Context<'_>, value: Option<ConstValue<'_>>) -> Vec<Vec<subgraphs::StringId>> {
+    fn items(value: ConstValue<'_>) -> Vec<ConstValue<'_>> {
+        match value {
+            ConstValue::List(list) => list.items().collect(),
+            ConstValue::Null(_) => Vec::new(),
+            value => vec![value],
+        }
+    }
+
+    let Some(value) = value else { return Vec::new() };
+
+    items(value)
+        .into_iter()
+        .map(|value| {
+            items(value)
+                .into_iter()
+                .filter_map(|value| value.as_str().map(|value| ctx.subgraphs.strings.intern(value)))
+                .collect()
+        })
+        .collect()
+}
+
 pub(super) fn ingest_keys(
     definition_id: DefinitionId,
     directives_node: ast::iter::Iter<'_, ast::Directive<'_>>,
-- 
2.43.0


From fef3e63fc635cfcb3d97f184a188a2c6ea0fb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 37/83] fix: composition: arguments in field sets follow the
 input coercion rules

---
 .../src/subgraphs/field_types.rs              |  4 -
 .../src/validate/selection.rs                 | 74 +++++++++++--------
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 283307c..418712a 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -78,10 +78,6 @@ impl FieldType {
         FieldTypeDisplay(self, subgraphs)
     }
 
-    pub(crate) fn is_list(&self) -> bool {
-        self.wrapping.is_list()
-    }
-
     pub(crate) fn inner_is_required(&self) -> bool {
         self.wrapping.inner_is_required()
     }
diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 124335f..986ae0e 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -249,48 +249,60 @@ fn validate_field_selection(
     }
 }
 
+/// Can the value be coerced to the type? See https://spec.graphql.org/October2021/#sec-Input-Values
 fn argument_type_matches(
-    ctx: &mut ValidateContext<'_>,
+    ctx: &ValidateContext<'_>,
     subgraph: subgraphs::SubgraphId,
     arg_type: &subgraphs::FieldType,
     value: &subgraphs::Value,
 ) -> bool {
-    let arg_type_name = ctx.subgraphs[arg_type.definition_name_id].as_ref();
+    if let subgraphs::Value::Null = value {
+        return !arg_type.is_required();
+    }
 
-    match value {
-        subgraphs::Value::String(_) if arg_type_name == "String" => true,
-        subgraphs::Value::Int(_) if arg_type_name == "Int" => true,
-        subgraphs::Value::Float(_) if arg_type_name == "Float" => true,
-        subgraphs::Value::Boolean(_) if arg_type_name == "Boolean" => true,
-        subgraphs::Value::Enum(value) => {
-            let Some(enum_type) = ctx
-                .subgraphs
-                .definition_by_name_id(arg_type.definition_name_id, subgraph)
-            else {
-                return false;
-            };
+    if let Some(wrapping) = arg_type.wrapping.without_list() {
+        let inner_type = subgraphs::FieldType { wrapping, ..*arg_type };
 
-            enum_type.enum_value_by_name(ctx.subgraphs, *value).is_some()
-        }
-        subgraphs::Value::Object(fields) => {
-            let Some(input_object_type) = ctx
-                .subgraphs
-                .definition_by_name_id(arg_type.definition_name_id, subgraph)
-            else {
-                return false;
-            };
+        return match value {
+            subgraphs::Value::List(values) => values
+                .iter()
+                .all(|value| argument_type_matches(ctx, subgraph, &inner_type, value)),
+            value => argument_type_matches(ctx, subgraph, &inner_type, value),
+        };
+    }
 
-            fields.iter().all(|(field_name, field_value)| {
-                let Some(inner_field) = input_object_type.field_by_name(ctx.subgraphs, *field_name) else {
-                    return false;
-                };
+    let arg_type_name = ctx.subgraphs[arg_type.definition_name_id].as_ref();
 
-                argument_type_matches(ctx, subgraph, &inner_field.r#type, field_value)
+    let Some(definition) = ctx
+        .subgraphs
+        .definition_by_name_id(arg_type.definition_name_id, subgraph)
+    else {
+        return match value {
+            subgraphs::Value::String(_) => matches!(arg_type_name, "String" | "ID"),
+            subgraphs::Value::Int(_) => matches!(arg_type_name, "Int" | "Float" | "ID"),
+            subgraphs::Value::Float(_) => arg_type_name == "Float",
+            subgraphs::Value::Boolean(_) => arg_type_name == "Boolean",
+            _ => false,
+        };
+    };
+
+    match (ctx.subgraphs.at(definition).kind, value) {
+        // Any value can be a value of a custom scalar.
+        (subgraphs::DefinitionKind::Scalar, _) => true,
+        (subgraphs::DefinitionKind::Enum, subgraphs::Value::Enum(value)) => {
+            definition.enum_value_by_name(ctx.subgraphs, *value).is_some()
+        }
+        (subgraphs::DefinitionKind::InputObject, subgraphs::Value::Object(values)) => {
+            values.iter().all(|(field_name, value)| {
+                definition
+                    .field_by_name(ctx.subgraphs, *field_name)
+                    .is_some_and(|field| argument_type_matches(ctx, subgraph, &field.r#type, value))
+            }) && definition.fields(ctx.subgraphs).all(|field| {
+                !field.r#type.is_required()
+                    || field.input_field_default_value.is_some()
+                    || values.iter().any(|(field_name, _)| *field_name == field.name)
             })
         }
-        subgraphs::Value::List(inner) if arg_type.is_list() => inner
-            .iter()
-            .all(|inner| argument_type_matches(ctx, subgraph, arg_type, inner)),
         _ => false,
     }
 }
-- 
2.43.0


From 202398476424105a4c9c50549de8ca7d7700a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 38/83] fix: composition: the composed @cost and @listSize do
 not depend on the order of subgraphs

---
 crates/graphql-composition/src/compose/directives.rs |  5 ++---
 .../federated_graph/directives/complexity_control.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index bc193ad..01ebbbb 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -27,7 +27,6 @@ pub(super) fn collect_composed_directives(
     let mut is_inaccessible = false;
     let mut authenticated = false;
     let mut cost = None;
-    let mut list_size = None;
     let mut extra_directives = Vec::new();
     let mut out = Vec::new();
 
@@ -60,8 +59,8 @@ pub(super) fn collect_composed_directives(
         is_inaccessible = is_inaccessible || site.inaccessible(ctx.subgraphs);
         authenticated = authenticated || site.authenticated(ctx.subgraphs);
 
-        cost = cost.or(site.cost(ctx.subgraphs));
-        list_size = list_size.or(site.list_size(ctx.subgraphs));
+        // The heaviest of the costs in subgraphs, whatever their order.
+        cost = cost.max(site.cost(ctx.subgraphs));
 
         for directive in site.iter_ir_directives(ctx.subgraphs) {
             extra_directives.push(directive.clone());
diff --git a/crates/graphql-composition/src/federated_graph/directives/complexity_control.rs b/crates/graphql-composition/src/federated_graph/directives/complexity_control.rs
index 1432fce..2c5a295 100644
--- a/crates/graphql-composition/src/federated_graph/directives/complexity_control.rs
+++ b/crates/graphql-composition/src/federated_graph/directives/complexity_control.rs
@@ -18,10 +18,10 @@ pub struct ListSizeDirective {
 impl ListSizeDirective {
     pub fn merge(self, other: ListSizeDirective) -> Self {
         let mut slicing_arguments = self.slicing_arguments;
-        slicing_arguments.extend(other.slicing_arguments);
+        extend_without_duplicates(&mut slicing_arguments, other.slicing_arguments);
 
         let mut sized_fields = self.sized_fields;
-        sized_fields.extend(other.sized_fields);
+        extend_without_duplicates(&mut sized_fields, other.sized_fields);
 
         ListSizeDirective {
             assumed_size: match (self.assumed_size, other.assumed_size) {
@@ -35,6 +35,14 @@ impl ListSizeDirective {
     }
 }
 
+fn extend_without_duplicates(names: &mut Vec<String>, other: Vec<String>) {
+    for name in other {
+        if !names.contains(&name) {
+            names.push(name);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{super::*, *};
-- 
2.43.0


From f2da5beb6aa8e520d40f8062ed01bfa5ad324c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 39/83] fix: composition: input fields with different defaults
 in different subgraphs never compose

---
 .../src/compose/input_object.rs               | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/input_object.rs b/crates/graphql-composition/src/compose/input_object.rs
index e08f276..499def5 100644
--- a/crates/graphql-composition/src/compose/input_object.rs
+++ b/crates/graphql-composition/src/compose/input_object.rs
@@ -77,10 +77,7 @@ pub(super) fn merge_input_object_definitions(
             })
         }));
 
-        let default = fields
-            .iter()
-            .find_map(|field| field.input_field_default_value.as_ref())
-            .cloned();
+        let default = compose_input_field_defaults(ctx, fields).cloned();
 
         let name = ctx.insert_string(field_name);
         let id = ctx.insert_input_value_definition(ir::InputValueDefinitionIr {
@@ -103,3 +100,33 @@ pub(super) fn merge_input_object_definitions(
     let fields = fields_range.unwrap_or(federated::NO_INPUT_VALUE_DEFINITION);
     ctx.insert_input_object(input_object_name, description, directives, fields);
 }
+
+/// Between the subgraphs that define a default on the same input field, the default must be the same. Other subgraphs can have
+/// the same field without default.
+fn compose_input_field_defaults<'a>(
+    ctx: &mut Context<'_>,
+    fields: &[subgraphs::FieldView<'a>],
+) -> Option<&'a subgraphs::Value> {
+    let mut with_default = fields
+        .iter()
+        .filter_map(|field| Some((field, field.record.input_field_default_value.as_ref()?)));
+
+    let (first_field, default) = with_default.next()?;
+
+    if let Some((other_field, _)) = with_default.find(|(_, other_default)| *other_default != default) {
+        let [first_definition, other_definition] =
+            [first_field, other_field].map(|field| ctx.subgraphs.at(field.parent_definition_id));
+        let [first_subgraph, other_subgraph] =
+            [first_definition, other_definition].map(|definition| ctx.subgraphs.at(definition.subgraph_id));
+
+        ctx.diagnostics.push_fatal(format!(
+            r#"The input field {type_name}.{field_name} has incompatible defaults in subgraphs "{first_subgraph}" and "{other_subgraph}""#,
+            type_name = ctx.subgraphs[first_definition.name],
+            field_name = ctx.subgraphs[first_field.name],
+            first_subgraph = ctx.subgraphs[first_subgraph.name],
+            other_subgraph = ctx.subgraphs[other_subgraph.name],
+        ));
+    }
+
+    Some(default)
+}
-- 
2.43.0


From 43ecf4c711b2741986673e1237efe36e3114a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 40/83] fix: composition: directives of extended types are
 found, composed directives are not repeated

---
 crates/graphql-composition/src/compose/directives.rs   | 8 ++++----
 crates/graphql-composition/src/subgraphs.rs            | 6 +++++-
 crates/graphql-composition/src/subgraphs/directives.rs | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index 01ebbbb..358d960 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -184,10 +184,10 @@ pub(super) fn collect_composed_directives(
         out.push(directive);
     }
 
-    extra_directives.dedup();
-
-    for directive in extra_directives {
-        out.push(directive);
+    for (idx, directive) in extra_directives.iter().enumerate() {
+        if !extra_directives[..idx].contains(directive) {
+            out.push(directive.clone());
+        }
     }
 
     out
diff --git a/crates/graphql-composition/src/subgraphs.rs b/crates/graphql-composition/src/subgraphs.rs
index 4f05e69..557aa12 100644
--- a/crates/graphql-composition/src/subgraphs.rs
+++ b/crates/graphql-composition/src/subgraphs.rs
@@ -181,7 +181,11 @@ impl Subgraphs {
 
         self.directives
             .extra_directives
-            .sort_unstable_by_key(|directive| directive.directive_site_id);
+            .sort_by_key(|directive| directive.directive_site_id);
+
+        self.directives
+            .ir_directives
+            .sort_by_key(|(directive_site_id, _)| *directive_site_id);
 
         self.enums
             .values
diff --git a/crates/graphql-composition/src/subgraphs/directives.rs b/crates/graphql-composition/src/subgraphs/directives.rs
index 950e1d9..cc8d265 100644
--- a/crates/graphql-composition/src/subgraphs/directives.rs
+++ b/crates/graphql-composition/src/subgraphs/directives.rs
@@ -58,7 +58,7 @@ pub(super) struct Directives {
     composed_directives: HashSet<(SubgraphId, StringId)>,
 
     /// Directives that can go straight to composition IR.
-    ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
+    pub(super) ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
     pub(super) extra_directives: Vec<ExtraDirectiveRecord>,
     extra_directives_on_schema_definition: Vec<(SubgraphId, ExtraDirectiveRecord)>,
 }
-- 
2.43.0


From 82de03aee385d591de2e895b55bfd4f85ff532e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 41/83] fix: composition: unions of types that are left out of
 the API schema are left out as well

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs         | 4 ++--
 crates/graphql-composition/src/validate.rs                   | 2 +-
 crates/graphql-composition/src/validate/inaccessible.rs      | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index a4b45b5..1a8ecc4 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -2,7 +2,7 @@ mod visibility;
 
 use self::visibility::*;
 use super::{directive::write_directive, directive_definition::display_directive_definitions, display_utils::*};
-use crate::{FederatedGraph, federated_graph::*};
+use crate::{FederatedGraph, federated_graph::*, validate::is_left_out};
 use std::fmt::{self, Write as _};
 
 /// Render a GraphQL SDL string for a federated graph. It does not include any
@@ -213,7 +213,7 @@ impl fmt::Display for Renderer<'_> {
             let mut members = union
                 .members
                 .iter()
-                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .filter(|member| !is_left_out(graph, Definition::Object(**member)))
                 .peekable();
 
             if members.peek().is_none() {
diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index ffc86b2..a539a78 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -8,7 +8,7 @@ mod references;
 mod selection;
 mod subgraph_names;
 
-pub(crate) use inaccessible::validate_inaccessible_types;
+pub(crate) use inaccessible::{is_left_out, validate_inaccessible_types};
 pub(crate) use references::validate_references;
 
 type ValidateContext<'a> = crate::ComposeContext<'a>;
diff --git a/crates/graphql-composition/src/validate/inaccessible.rs b/crates/graphql-composition/src/validate/inaccessible.rs
index 2ca1872..982798c 100644
--- a/crates/graphql-composition/src/validate/inaccessible.rs
+++ b/crates/graphql-composition/src/validate/inaccessible.rs
@@ -58,7 +58,8 @@ fn is_inaccessible(directives: &[Directive]) -> bool {
         .any(|directive| matches!(directive, Directive::Inaccessible))
 }
 
-fn is_left_out(graph: &FederatedGraph, definition: Definition) -> bool {
+/// Is the definition not part of the API schema, because it is `@inaccessible` or nothing accessible is left of it?
+pub(crate) fn is_left_out(graph: &FederatedGraph, definition: Definition) -> bool {
     match definition {
         Definition::Scalar(id) => is_inaccessible(&graph[id].directives),
         Definition::Object(id) => {
@@ -80,7 +81,7 @@ fn is_left_out(graph: &FederatedGraph, definition: Definition) -> bool {
                 || graph[id]
                     .members
                     .iter()
-                    .all(|member| is_inaccessible(&graph.at(*member).directives))
+                    .all(|member| is_left_out(graph, Definition::Object(*member)))
         }
         Definition::Enum(id) => {
             is_inaccessible(&graph[id].directives)
-- 
2.43.0


From e5c77f8c932ad473444c55c141b44ca4d927e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 42/83] fix: composition: whether a type is an entity interface
 does not depend on the order of subgraphs

---
 .../src/compose/entity_interface.rs           | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index 44ab772..46fc5aa 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -2,24 +2,26 @@ use super::*;
 
 pub(super) fn is_entity_interface(
     subgraphs: &subgraphs::Subgraphs,
-    mut definitions: impl Iterator<Item = subgraphs::DefinitionId>,
+    definitions: impl Iterator<Item = subgraphs::DefinitionId>,
 ) -> bool {
-    // Take the first federation v2 definition.
-    let Some(definition_id) = definitions.find(|def| {
-        let subgraph_id = subgraphs.at(*def).subgraph_id;
-        subgraphs.at(subgraph_id).federation_spec.is_apollo_v2()
-    }) else {
-        return false;
-    };
+    let mut definitions = definitions
+        // Only federation v2 definitions.
+        .filter(|def| {
+            let subgraph_id = subgraphs.at(*def).subgraph_id;
+            subgraphs.at(subgraph_id).federation_spec.is_apollo_v2()
+        })
+        .map(|id| (id, subgraphs.at(id)))
+        .peekable();
 
-    // Is it an entity interface object, or an interface with @key?
-    let definition = &subgraphs.at(definition_id);
+    let is_interface_with_key = definitions.peek().is_some_and(|(id, definition)| {
+        definition.kind == DefinitionKind::Interface && id.keys(subgraphs).next().is_some()
+    });
 
-    match definition.kind {
-        DefinitionKind::Object => definition.directives.interface_object(subgraphs),
-        DefinitionKind::Interface => definition_id.keys(subgraphs).next().is_some(),
-        _ => false,
-    }
+    // Is it an interface with @key, or an entity interface object in any of the subgraphs?
+    is_interface_with_key
+        || definitions.any(|(_, definition)| {
+            definition.kind == DefinitionKind::Object && definition.directives.interface_object(subgraphs)
+        })
 }
 
 pub(crate) fn merge_entity_interface_definitions<'a>(
-- 
2.43.0


From 5ff77257b818ad0ca02bf3c8834b2f595c30b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 43/83] fix: composition: field sets that close the selection
 set are not accepted

---
 crates/graphql-composition/src/subgraphs/keys.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/subgraphs/keys.rs b/crates/graphql-composition/src/subgraphs/keys.rs
index 75c2449..bb70408 100644
--- a/crates/graphql-composition/src/subgraphs/keys.rs
+++ b/crates/graphql-composition/src/subgraphs/keys.rs
@@ -46,7 +46,10 @@ impl Subgraphs {
             format!("could not parse the `{argument_name}` argument in `@{directive_name}` as a selection set: {err}")
         })?;
 
-        let Some(operation) = parsed.operations().next() else {
+        let mut definitions = parsed.definitions();
+
+        let (Some(ast::ExecutableDefinition::Operation(operation)), None) = (definitions.next(), definitions.next())
+        else {
             return Err(format!(
                 "The `{argument_name}` argument in `@{directive_name}` must be a selection set"
             ));
-- 
2.43.0


From 3b6378acc6c97e9e480d1da38a3faf565cfcc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 44/83] fix: composition: white space lines at the start of or
 inside descriptions come back the same

---
 .../src/federated_graph/render_sdl/display_utils.rs       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 0d76f7c..c69736d 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -80,11 +80,13 @@ impl fmt::Display for Description<'_> {
 
         writeln!(f, r#"{indentation}""""#)?;
 
-        let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
+        let mut lines = description
+            .lines()
+            .map(str::trim)
+            .skip_while(|line| line.is_empty())
+            .peekable();
 
         while let Some(line) = lines.next() {
-            let line = line.trim();
-
             if line.is_empty() && lines.peek().map(|next| next.is_empty()).unwrap_or(true) {
                 continue;
             }
-- 
2.43.0


From 7417934c3613359342714ebf64f559db50b92bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 45/83] grafbase-sdk: a cfg(wsym) hook that makes the component
 boundary types visible to checks

---
 crates/grafbase-sdk/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/grafbase-sdk/src/lib.rs b/crates/grafbase-sdk/src/lib.rs
index 2a9d9fa..208f5b1 100644
--- a/crates/grafbase-sdk/src/lib.rs
+++ b/crates/grafbase-sdk/src/lib.rs
@@ -2,6 +2,7 @@
 #![doc = "# Features"]
 #![doc = document_features::document_features!()]
 #![deny(missing_docs, unused_crate_dependencies)]
+#![allow(unexpected_cfgs)]
 
 mod cbor;
 mod component;
@@ -13,7 +14,11 @@ pub mod jq_selection;
 #[cfg(feature = "test-utils")]
 pub mod test;
 pub mod types;
+#[cfg(not(wsym))]
 mod wit;
+// Lets checks outside of this crate build and read what crosses the component boundary.
+#[cfg(wsym)]
+pub mod wit;
 
 pub use component::SdkError;
 pub use extension::{
-- 
2.43.0


From eac2ed5a9abba5e1831990a3e1f8beeaa976d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 46/83] fix: rolling-logger: rotating never replaces an already
 rotated file

---
 crates/rolling-logger/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index f5e161c..000a617 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,8 +69,21 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        let mut path = self.path.as_os_str().to_os_string();
-        path.push(format!(".{}", self.file.timestamp()));
+        let mut rotated = self.path.as_os_str().to_os_string();
+        rotated.push(format!(".{}", self.file.timestamp()));
+
+        // Several rotations can happen within the same millisecond, renaming must not replace an
+        // already rotated file.
+        let mut path = PathBuf::from(&rotated);
+        let mut counter = 0u64;
+
+        while path.exists() {
+            counter += 1;
+
+            let mut next = rotated.clone();
+            next.push(format!(".{counter}"));
+            path = PathBuf::from(next);
+        }
 
         std::fs::rename(&self.path, &path)?;
 
-- 
2.43.0


From bf966bf01f6fb88a9c60bf24cfbea0dd96345a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 47/83] fix: rolling-logger: the size of the log file counts
 what was written

---
 crates/rolling-logger/src/log_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..a275fd7 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -102,8 +102,10 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From f3ef797a92e260f86d0432d266b448f475807f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 48/83] fix: gateway-config: an empty websockets section means
 the defaults, its unknown keys are rejected

---
 crates/gateway-config/src/websockets_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/websockets_config.rs b/crates/gateway-config/src/websockets_config.rs
index 2ed839d..205f086 100644
--- a/crates/gateway-config/src/websockets_config.rs
+++ b/crates/gateway-config/src/websockets_config.rs
@@ -1,6 +1,6 @@
 #[derive(Debug, serde::Deserialize, Clone)]
+#[serde(default, deny_unknown_fields)]
 pub struct WebsocketsConfig {
-    #[serde(default)]
     pub forward_connection_init_payload: bool,
 }
 
-- 
2.43.0


From 88e54e7f3405c2f9ba212df166afdf545559efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 49/83] fix: gateway-config: unknown keys of signed headers and
 preopened directories are rejected

---
 crates/gateway-config/src/hooks.rs              | 1 +
 crates/gateway-config/src/message_signatures.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/hooks.rs b/crates/gateway-config/src/hooks.rs
index 2294fa8..38fd014 100644
--- a/crates/gateway-config/src/hooks.rs
+++ b/crates/gateway-config/src/hooks.rs
@@ -22,6 +22,7 @@ pub struct HooksWasiConfig {
 
 /// Configuration for a directory that is preopened for the WASI component.
 #[derive(Clone, Debug, serde::Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct PreopenedDirectory {
     /// The path on the host system that is preopened.
     pub host_path: PathBuf,
diff --git a/crates/gateway-config/src/message_signatures.rs b/crates/gateway-config/src/message_signatures.rs
index 51bd081..5762912 100644
--- a/crates/gateway-config/src/message_signatures.rs
+++ b/crates/gateway-config/src/message_signatures.rs
@@ -100,7 +100,7 @@ pub enum DerivedComponent {
 
 /// Which headers to include/exclude in the signature
 #[derive(Debug, Default, Clone, PartialEq, serde::Deserialize)]
-#[serde(rename_all = "snake_case")]
+#[serde(rename_all = "snake_case", deny_unknown_fields)]
 pub struct MessageSigningHeaders {
     pub include: Option<Vec<String>>,
     pub exclude: Option<Vec<String>>,
-- 
2.43.0


From 6e74caedc034825012872a935fe8b59ca1faef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 50/83] fix: gateway-config: ed25519 is written as it is read

---
 crates/gateway-config/src/message_signatures.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/message_signatures.rs b/crates/gateway-config/src/message_signatures.rs
index 5762912..0eb7208 100644
--- a/crates/gateway-config/src/message_signatures.rs
+++ b/crates/gateway-config/src/message_signatures.rs
@@ -33,7 +33,7 @@ impl fmt::Display for MessageSigningAlgorithm {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let str = match self {
             MessageSigningAlgorithm::HmacSha256 => "hmac-sha256",
-            MessageSigningAlgorithm::Ed25519 => "ed25516",
+            MessageSigningAlgorithm::Ed25519 => "ed25519",
             MessageSigningAlgorithm::EcdsaP256 => "ecdsa-p256-sha256",
             MessageSigningAlgorithm::EcdsaP384 => "ecdsa-p384-sha384",
         };
-- 
2.43.0


From 1578e12ff3a3fc8f4d0838958409290e2d7c8ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 51/83] grafbase-sdk: the cfg(wsym) hook shows the values bound
 to a query

---
 crates/grafbase-sdk/src/host_io/postgres/query.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/query.rs b/crates/grafbase-sdk/src/host_io/postgres/query.rs
index 3d66974..01fe6c1 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/query.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/query.rs
@@ -74,6 +74,15 @@ impl Query {
     }
 }
 
+#[cfg(wsym)]
+impl Query {
+    /// What is sent to the host together with the query: the bound values and the array elements
+    /// they refer to.
+    pub fn bound(&self) -> (&[wit::PgBoundValue], &[wit::PgValue]) {
+        (&self.values, &self.value_tree)
+    }
+}
+
 /// An iterator over the columns in a database row.
 ///
 /// This iterator yields each column value in the row as a `RowValue`
-- 
2.43.0


From c99cbcc706a5eedba5e9c6dcd7761080a550b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 52/83] grafbase-sdk: the cfg(wsym) hook makes resolved fields

---
 crates/grafbase-sdk/src/types/resolver.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/grafbase-sdk/src/types/resolver.rs b/crates/grafbase-sdk/src/types/resolver.rs
index 378c456..29242ce 100644
--- a/crates/grafbase-sdk/src/types/resolver.rs
+++ b/crates/grafbase-sdk/src/types/resolver.rs
@@ -18,6 +18,25 @@ pub struct ResolvedField<'a> {
     pub(crate) root_field_ix: usize,
 }
 
+#[cfg(wsym)]
+impl<'a> ResolvedField<'a> {
+    /// The field as the component makes it from what the host sends.
+    pub fn from_parts(
+        subgraph_name: &'a str,
+        directive: &'a wit::Directive,
+        root_field_id: wit::FieldId,
+        fields: Vec<wit::Field>,
+    ) -> Self {
+        Self {
+            subgraph_name,
+            directive_name: &directive.name,
+            directive_arguments: &directive.arguments,
+            fields: fields.into(),
+            root_field_ix: root_field_id as usize,
+        }
+    }
+}
+
 impl<'a> TryFrom<&'a [u8]> for ResolvedField<'a> {
     type Error = SdkError;
     fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
-- 
2.43.0


From 0bed382993d3a8a2766698ec0159b8dd821db180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 53/83] grafbase-sdk: the cfg(wsym) hook shows the resolver
 types

---
 crates/grafbase-sdk/src/wit/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/grafbase-sdk/src/wit/mod.rs b/crates/grafbase-sdk/src/wit/mod.rs
index 5fcc7b1..3472471 100644
--- a/crates/grafbase-sdk/src/wit/mod.rs
+++ b/crates/grafbase-sdk/src/wit/mod.rs
@@ -4,7 +4,10 @@
 
 // Manually defining resolver_types to add some derives on the struct
 // We can add custom derives in the generate macro, but it's applied on everything.
+#[cfg(not(wsym))]
 mod resolver_types;
+#[cfg(wsym)]
+pub mod resolver_types;
 
 wit_bindgen::generate!({
     skip: ["register-extension"],
-- 
2.43.0


From 89bd3981e08f9130b62acd3c1e8bf9dd22dc850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 54/83] fix: grafbase-sdk: the elements of a database array are
 iterated in order

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 0919da7..4890eb3 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -89,7 +89,7 @@ impl DatabaseValue {
         DatabaseValueIterator {
             value: Some(self.value),
             r#type,
-            tree: self.array_values,
+            tree: self.array_values.map(Vec::into_iter),
         }
     }
 
@@ -376,7 +376,7 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
 pub struct DatabaseValueIterator {
     value: Option<wit::PgBoundValue>,
     r#type: wit::PgType,
-    tree: Option<wit::PgValueTree>,
+    tree: Option<std::vec::IntoIter<wit::PgValue>>,
 }
 
 impl Iterator for DatabaseValueIterator {
@@ -384,7 +384,7 @@ impl Iterator for DatabaseValueIterator {
 
     fn next(&mut self) -> Option<Self::Item> {
         let value = match (self.value.take(), self.tree.as_mut()) {
-            (_, Some(array)) => array.pop(),
+            (_, Some(array)) => array.next(),
             (Some(value), _) => Some(value.value),
             _ => None,
         };
-- 
2.43.0


From 55053c57a83c0059529d6eb87a9da1e4c585595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 55/83] fix: grafbase-sdk: byte strings with anything but
 hexadecimal digits are rejected

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 4890eb3..705d431 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -347,6 +347,11 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
 
     let hex_part = &s[2..];
 
+    // u8::from_str_radix accepts a sign, and only ASCII can be sliced at any index
+    if let Some(c) = hex_part.chars().find(|c| !c.is_ascii_hexdigit()) {
+        return Err(SdkError::from(format!("Invalid hexadecimal digit '{c}'")));
+    }
+
     if !hex_part.len().is_multiple_of(2) {
         return Err(SdkError::from("Hex string part has an odd number of characters"));
     }
-- 
2.43.0


From 598c300694c1b069723d65ebf918a9b031a0daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 56/83] fix: grafbase-sdk: integers that do not fit their
 Postgres column are rejected

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 705d431..08fe31a 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -247,8 +247,8 @@ impl DatabaseValue {
             serde_json::Value::Number(number) => {
                 if let Some(i) = number.as_i64() {
                     match column_type {
-                        PgType::Int16 => return Ok((i as i16).into_bound_value(0)),
-                        PgType::Int32 => return Ok((i as i32).into_bound_value(0)),
+                        PgType::Int16 => return Ok(int_in_range::<i16>(i)?.into_bound_value(0)),
+                        PgType::Int32 => return Ok(int_in_range::<i32>(i)?.into_bound_value(0)),
                         PgType::Int64 => return Ok(i.into_bound_value(0)),
                         _ => {
                             return Err(SdkError::from("Unsupported type for an int column"));
@@ -295,8 +295,8 @@ impl DatabaseValue {
                         serde_json::Value::Number(number) => {
                             if let Some(i) = number.as_i64() {
                                 let value = match column_type {
-                                    PgType::Int16 => wit::PgValue::Int16(i as i16),
-                                    PgType::Int32 => wit::PgValue::Int32(i as i32),
+                                    PgType::Int16 => wit::PgValue::Int16(int_in_range(i)?),
+                                    PgType::Int32 => wit::PgValue::Int32(int_in_range(i)?),
                                     PgType::Int64 => wit::PgValue::Int64(i),
                                     _ => return Err(SdkError::from("Unsupported type for an integer array column")),
                                 };
@@ -340,6 +340,10 @@ impl DatabaseValue {
     }
 }
 
+fn int_in_range<T: TryFrom<i64>>(value: i64) -> Result<T, SdkError> {
+    T::try_from(value).map_err(|_| SdkError::from(format!("Number out of range: {value}")))
+}
+
 fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
     if !s.starts_with("\\x") {
         return Err(SdkError::from("Input string must start with '\\x'"));
-- 
2.43.0


From 9761ee6b382c77ffe655c7582b428a7a5a1612e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 57/83] fix: grafbase-sdk: floats beyond their Postgres column
 are rejected

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 08fe31a..1839459 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -258,7 +258,7 @@ impl DatabaseValue {
 
                 if let Some(f) = number.as_f64() {
                     match column_type {
-                        PgType::Float32 => return Ok((f as f32).into_bound_value(0)),
+                        PgType::Float32 => return Ok(float_in_range(f)?.into_bound_value(0)),
                         PgType::Float64 => return Ok(f.into_bound_value(0)),
                         _ => {
                             return Err(SdkError::from("Unsupported type for a float column"));
@@ -304,7 +304,7 @@ impl DatabaseValue {
                                 array_values.push(value);
                             } else if let Some(f) = number.as_f64() {
                                 let value = match column_type {
-                                    PgType::Float32 => wit::PgValue::Float32(f as f32),
+                                    PgType::Float32 => wit::PgValue::Float32(float_in_range(f)?),
                                     PgType::Float64 => wit::PgValue::Float64(f),
                                     _ => return Err(SdkError::from("Unsupported type for a float array column")),
                                 };
@@ -344,6 +344,16 @@ fn int_in_range<T: TryFrom<i64>>(value: i64) -> Result<T, SdkError> {
     T::try_from(value).map_err(|_| SdkError::from(format!("Number out of range: {value}")))
 }
 
+fn float_in_range(value: f64) -> Result<f32, SdkError> {
+    let float = value as f32;
+
+    if float.is_infinite() {
+        return Err(SdkError::from(format!("Number out of range: {value}")));
+    }
+
+    Ok(float)
+}
+
 fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
     if !s.starts_with("\\x") {
         return Err(SdkError::from("Input string must start with '\\x'"));
-- 
2.43.0


From 9390d6a33d9e483b716a042e064049fb1052fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 58/83] fix: grafbase-sdk: the elements of bound arrays are
 found after other arrays

---
 crates/grafbase-sdk/src/host_io/postgres/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/query.rs b/crates/grafbase-sdk/src/host_io/postgres/query.rs
index 01fe6c1..cf36135 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/query.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/query.rs
@@ -231,8 +231,8 @@ impl QueryBuilder {
     /// # Returns
     /// The query builder for method chaining
     pub fn bind(&mut self, value: impl DatabaseType) {
-        let value = value.into_bound_value(self.value_tree.len() as u64);
-        self.bind_value(value);
+        // bind_value() moves the indices of arrays to their place in the value tree
+        self.bind_value(value.into_bound_value(0));
     }
 
     /// Binds a pre-constructed `DatabaseValue` to the query as a parameter.
-- 
2.43.0


From 51c782730417b8b7bfafe3ff8fede705a1b60618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 59/83] fix: graphql-lint: deprecated arguments without a
 reason are reported like everything else

---
 crates/graphql-lint/src/lib.rs | 66 +++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-lint/src/lib.rs b/crates/graphql-lint/src/lib.rs
index 83bc4d4..53049d2 100644
--- a/crates/graphql-lint/src/lib.rs
+++ b/crates/graphql-lint/src/lib.rs
@@ -66,9 +66,12 @@ impl<'a> SchemaLinter {
                             .for_each(|directive| self.visit_directive_usage(r#type, directive));
                         object.fields().for_each(|field| {
                             self.visit_field(r#type, field);
-                            field
-                                .arguments()
-                                .for_each(|argument| self.visit_field_argument(r#type, field, argument));
+                            field.arguments().for_each(|argument| {
+                                self.visit_field_argument(r#type, field, argument);
+                                argument.directives().for_each(|directive_usage| {
+                                    self.visit_directive_usage_field_argument(r#type, field, argument, directive_usage);
+                                });
+                            });
                             field.directives().for_each(|directive_usage| {
                                 self.visit_directive_usage_field(r#type, field, directive_usage);
                             });
@@ -81,9 +84,12 @@ impl<'a> SchemaLinter {
                             .for_each(|directive| self.visit_directive_usage(r#type, directive));
                         interface.fields().for_each(|field| {
                             self.visit_field(r#type, field);
-                            field
-                                .arguments()
-                                .for_each(|argument| self.visit_field_argument(r#type, field, argument));
+                            field.arguments().for_each(|argument| {
+                                self.visit_field_argument(r#type, field, argument);
+                                argument.directives().for_each(|directive_usage| {
+                                    self.visit_directive_usage_field_argument(r#type, field, argument, directive_usage);
+                                });
+                            });
                             field.directives().for_each(|directive_usage| {
                                 self.visit_directive_usage_field(r#type, field, directive_usage);
                             });
@@ -123,9 +129,12 @@ impl<'a> SchemaLinter {
             }
             Definition::Directive(directive) => {
                 self.visit_directive(directive);
-                directive
-                    .arguments()
-                    .for_each(|argument| self.visit_directive_argument(directive, argument));
+                directive.arguments().for_each(|argument| {
+                    self.visit_directive_argument(directive, argument);
+                    argument.directives().for_each(|directive_usage| {
+                        self.visit_directive_usage_directive_argument(directive, argument, directive_usage);
+                    });
+                });
             }
         });
 
@@ -321,6 +330,45 @@ impl<'a> SchemaLinter {
         }
     }
 
+    pub fn visit_directive_usage_field_argument(
+        &mut self,
+        parent_type: TypeDefinition<'_>,
+        parent_field: FieldDefinition<'_>,
+        parent_argument: InputValueDefinition<'_>,
+        directive: Directive<'_>,
+    ) {
+        if directive.name() == "deprecated" && !directive.arguments().any(|argument| argument.name() == "reason") {
+            self.diagnostics.push((
+                format!(
+                    "usage of directive 'deprecated' on argument '{}' on field '{}' on {} '{}' does not populate the 'reason' argument",
+                    parent_argument.name(),
+                    parent_field.name(),
+                    Self::type_definition_display(parent_type),
+                    parent_type.name()
+                ),
+                Severity::Warning,
+            ));
+        }
+    }
+
+    pub fn visit_directive_usage_directive_argument(
+        &mut self,
+        parent_directive: DirectiveDefinition<'_>,
+        parent_argument: InputValueDefinition<'_>,
+        directive: Directive<'_>,
+    ) {
+        if directive.name() == "deprecated" && !directive.arguments().any(|argument| argument.name() == "reason") {
+            self.diagnostics.push((
+                format!(
+                    "usage of directive 'deprecated' on argument '{}' on directive '{}' does not populate the 'reason' argument",
+                    parent_argument.name(),
+                    parent_directive.name()
+                ),
+                Severity::Warning,
+            ));
+        }
+    }
+
     pub fn visit_directive_usage_input_value(
         &mut self,
         parent_input: InputObjectDefinition<'_>,
-- 
2.43.0


From 3826a218833b0e2299439b76e237b9ec0f14f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 60/83] fix: composition: directives under a prefix that is not
 linked are not taken for others

---
 .../src/ingest_subgraph/directives.rs             |  8 ++++++--
 .../src/ingest_subgraph/directives/match_name.rs  | 15 ++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives.rs b/crates/graphql-composition/src/ingest_subgraph/directives.rs
index 56aa4d5..2283275 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives.rs
@@ -246,11 +246,15 @@ pub(super) fn ingest_directives(
 
             DirectiveNameMatch::NoMatch => {
                 let location = location(ctx.subgraphs);
-                let directive_name = ctx.subgraphs.at(directive_name_id);
+                let directive_name = directive.name();
+                let directive_name = directive_name
+                    .split_once("__")
+                    .map(|(_, name)| name)
+                    .unwrap_or(directive_name);
 
                 ctx.subgraphs.push_ingestion_warning(
                     ctx.subgraph_id,
-                    format!("Unknown directive `@{}` at `{}`", directive_name.as_ref(), location,),
+                    format!("Unknown directive `@{directive_name}` at `{location}`"),
                 );
             }
 
diff --git a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
index bcf98a1..ce408f6 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
@@ -22,17 +22,16 @@ pub(in crate::ingest_subgraph) fn match_directive_name(
     ctx: &mut Context<'_>,
     directive_name: &str,
 ) -> (StringId, DirectiveNameMatch) {
-    let (namespace, directive_name) = directive_name
+    // Only what comes before `__` in the name of a directive from a linked schema is a namespace.
+    let (linked_schema_id, directive_name) = directive_name
         .split_once("__")
-        .map(|(namespace, name)| {
+        .and_then(|(namespace, name)| {
             let namespace = ctx.subgraphs.strings.intern(namespace);
-            (Some(namespace), name)
+            let linked_schema_id = ctx.subgraphs.get_linked_schema(ctx.subgraph_id, namespace)?;
+            Some((Some(linked_schema_id), name))
         })
         .unwrap_or((None, directive_name));
 
-    let linked_schema_id =
-        namespace.and_then(|namespace_str| ctx.subgraphs.get_linked_schema(ctx.subgraph_id, namespace_str));
-
     let directive_name_id = ctx.subgraphs.strings.intern(directive_name);
 
     let matched = match match_directive_name_inner(ctx, directive_name_id, linked_schema_id, directive_name) {
@@ -119,7 +118,9 @@ fn match_directive_name_inner(
 
     // We auto-import federation directives only in cases where the federation spec hasn't been `@link`ed, to match federation v1 behaviour, or when the subgraph is virtual, because there is no legacy use case there, these are a new Grafbase feature.
     if !federation_schema_has_been_linked && !is_virtual_subgraph {
-        return match_federation_directive_by_original_name(directive_name);
+        return match_federation_directive_by_original_name(
+            directive_name.strip_prefix("federation__").unwrap_or(directive_name),
+        );
     }
 
     DirectiveNameMatch::NoMatch
-- 
2.43.0


From 32c68c36138925e06a92de0935d8f22f592447a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 61/83] fix: composition: @link accepts its purpose as the enum
 value it is

---
 .../src/federated_graph/directives/link.rs                | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/directives/link.rs b/crates/graphql-composition/src/federated_graph/directives/link.rs
index f5c0b0a..d84e2e5 100644
--- a/crates/graphql-composition/src/federated_graph/directives/link.rs
+++ b/crates/graphql-composition/src/federated_graph/directives/link.rs
@@ -83,9 +83,13 @@ pub enum Purpose {
 
 impl<'a> ValueDeserialize<'a> for Purpose {
     fn deserialize(input: cynic_parser_deser::DeserValue<'a>) -> Result<Self, cynic_parser_deser::Error> {
-        let str: &str = input.deserialize()?;
+        // An enum value in SDL, possibly a string.
+        let purpose = match input.as_enum_value() {
+            Some(purpose) => purpose,
+            None => input.deserialize()?,
+        };
 
-        match str {
+        match purpose {
             "SECURITY" => Ok(Purpose::Security),
             "EXECUTION" => Ok(Purpose::Execution),
             _ => Err(cynic_parser_deser::Error::custom("Bad purpose", input.span())),
-- 
2.43.0


From 48c65bc773b10a79b534fc4b252b54f8ab1397c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 62/83] fix: composition: extensions whose names become the
 same enum value collide

---
 .../src/emit_federated_graph.rs               |  2 ++
 .../emit_federated_graph/emit_extensions.rs   | 22 ++++++++++---------
 .../src/validate/extension_names.rs           |  3 ++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-composition/src/emit_federated_graph.rs b/crates/graphql-composition/src/emit_federated_graph.rs
index ab5a204..7e59d7f 100644
--- a/crates/graphql-composition/src/emit_federated_graph.rs
+++ b/crates/graphql-composition/src/emit_federated_graph.rs
@@ -7,6 +7,8 @@ mod emit_linked_schemas;
 mod federation_builtins;
 mod field_types_map;
 
+pub(crate) use self::emit_extensions::extension_enum_value;
+
 use self::{context::Context, directive::*, directive_definitions::emit_directive_definitions, emit_extensions::*};
 use crate::{
     Subgraphs, VecExt,
diff --git a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
index 87a71de..4242c93 100644
--- a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
+++ b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
@@ -23,16 +23,7 @@ pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
         }
         let url = ctx.insert_string(extension.url);
 
-        let extension_name_str = ctx.subgraphs[extension.name].as_ref();
-        let mut value = String::with_capacity(extension_name_str.len());
-
-        for char in extension_name_str.chars() {
-            match char {
-                '-' | '.' => value.push('_'),
-                _ => value.push(char.to_ascii_uppercase()),
-            }
-        }
-
+        let value = extension_enum_value(&ctx.subgraphs[extension.name]);
         let value = ctx.insert_str(&value);
 
         let schema_directives: Vec<federated::ExtensionLinkSchemaDirective> =
@@ -67,6 +58,17 @@ pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
     }
 }
 
+/// The value for an extension in the `extension__Link` enum.
+pub(crate) fn extension_enum_value(extension_name: &str) -> String {
+    extension_name
+        .chars()
+        .map(|char| match char {
+            '-' | '.' => '_',
+            _ => char.to_ascii_uppercase(),
+        })
+        .collect()
+}
+
 fn iter_directives_from_extension<'a>(
     extension_id: subgraphs::ExtensionId,
     subgraphs: &'a Subgraphs,
diff --git a/crates/graphql-composition/src/validate/extension_names.rs b/crates/graphql-composition/src/validate/extension_names.rs
index a08a68e..0c8d8ef 100644
--- a/crates/graphql-composition/src/validate/extension_names.rs
+++ b/crates/graphql-composition/src/validate/extension_names.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::emit_federated_graph::extension_enum_value;
 use std::collections::HashMap;
 
 pub(crate) fn validate_extension_names(ctx: &mut ValidateContext<'_>) {
@@ -24,7 +25,7 @@ pub(crate) fn validate_extension_names(ctx: &mut ValidateContext<'_>) {
             None => link_url,
         };
 
-        let Some(existing) = seen.insert(name.to_ascii_lowercase(), normalized_url) else {
+        let Some(existing) = seen.insert(extension_enum_value(name), normalized_url) else {
             continue;
         };
 
-- 
2.43.0


From 2a680020ee4ca9eea88a3cb56b121be1b500f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 63/83] fix: composition: composed directives that are
 repeatable are defined as such in the federated SDL

---
 .../src/federated_graph/render_sdl/directive_definition.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/directive_definition.rs b/crates/graphql-composition/src/federated_graph/render_sdl/directive_definition.rs
index f5b024a..5af5617 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/directive_definition.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/directive_definition.rs
@@ -76,6 +76,13 @@ fn display_directive_definition(
         f.write_str(")")?;
     }
 
+    // Only the directives from subgraphs. Consumers of the federated SDL do not expect it on the built-in ones.
+    let is_builtin = namespace.is_some() || graph[directive_definition.name] == "link";
+
+    if directive_definition.repeatable && !is_builtin {
+        f.write_str(" repeatable")?;
+    }
+
     f.write_str(" on ")?;
 
     fmt::Display::fmt(&directive_definition.locations, f)?;
-- 
2.43.0


From b433cd56da57446cfd1a4925035fd3df5e48b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 64/83] fix: composition: arguments of directives defined in
 several subgraphs are not repeated, and required everywhere or nowhere

---
 .../src/compose/directive_definitions.rs      | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 5c1af1e..7663978 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -57,20 +57,30 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         // == Arguments ==
         let repeatable = first_definition.repeatable;
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
-        for (ix, definition) in chunk.iter().copied().enumerate() {
+        for definition in chunk.iter().copied() {
             for argument in &definition.arguments {
-                if arguments
-                    .iter()
-                    .find(|arg| ctx[arg.name] == ctx[argument.name])
-                    .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
-                    .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
-                {
+                let existing = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
+                let is_required = argument.r#type.wrapping.is_non_null() && argument.default_value.is_none();
+
+                // A definition that is incompatible with this one because of the argument.
+                let conflicting_definition = match existing {
+                    Some(arg) if arg.r#type != argument.r#type || arg.default != argument.default_value => {
+                        Some(*first_definition)
+                    }
+                    None if is_required => chunk
+                        .iter()
+                        .copied()
+                        .find(|definition| definition.arguments.iter().all(|arg| arg.name != argument.name)),
+                    _ => None,
+                };
+
+                if let Some(conflicting_definition) = conflicting_definition {
                     let mut diagnostic = format!(
                         "Directive `{}` is defined with incompatible arguments:\n",
                         ctx.subgraphs[first_definition.name].as_ref(),
                     );
 
-                    for def in [first_definition, definition] {
+                    for def in [conflicting_definition, definition] {
                         writeln!(
                             diagnostic,
                             "- ({}) in {}",
@@ -86,7 +96,7 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
 
                     ctx.diagnostics.push_fatal(diagnostic);
                     continue 'directives;
-                } else {
+                } else if existing.is_none() {
                     let input_value_definition = ir::InputValueDefinitionIr {
                         name: ctx.insert_string(argument.name),
                         r#type: argument.r#type,
-- 
2.43.0


From 8871be8e10ed870dfad0b1bfd400631ff6ab4bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 65/83] fix: composition: the same directive of a linked schema
 in several subgraphs is composed once

---
 .../src/compose/directives.rs                 | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index 358d960..8f9173f 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -185,10 +185,41 @@ pub(super) fn collect_composed_directives(
     }
 
     for (idx, directive) in extra_directives.iter().enumerate() {
-        if !extra_directives[..idx].contains(directive) {
+        let is_repetition = extra_directives[..idx]
+            .iter()
+            .any(|other| is_same_directive(directive, other, ctx.subgraphs));
+
+        if !is_repetition {
             out.push(directive.clone());
         }
     }
 
     out
 }
+
+/// Composed directives are the same when they come from the same linked schema, in whichever subgraphs it is linked.
+fn is_same_directive(a: &ir::Directive, b: &ir::Directive, subgraphs: &subgraphs::Subgraphs) -> bool {
+    match (a, b) {
+        (
+            ir::Directive::Other {
+                provenance:
+                    ir::DirectiveProvenance::ComposeDirective {
+                        linked_schema_id: Some(a_schema),
+                    },
+                name: a_name,
+                arguments: a_arguments,
+            },
+            ir::Directive::Other {
+                provenance:
+                    ir::DirectiveProvenance::ComposeDirective {
+                        linked_schema_id: Some(b_schema),
+                    },
+                name: b_name,
+                arguments: b_arguments,
+            },
+        ) => {
+            subgraphs.at(*a_schema).url == subgraphs.at(*b_schema).url && a_name == b_name && a_arguments == b_arguments
+        }
+        _ => a == b,
+    }
+}
-- 
2.43.0


From f2a33e327701db6d2f2c85dfa97c6cc0daa64988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 66/83] fix: composition: composed directives on the schema are
 carried over without a link as well

---
 .../src/ingest_subgraph/schema_definitions.rs    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
index 146f46b..d27d450 100644
--- a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
@@ -125,6 +125,22 @@ pub(super) fn ingest_schema_definitions(ctx: &mut Context<'_>) {
                     );
                 }
 
+                DirectiveNameMatch::NoMatch
+                    if ctx.subgraphs.is_composed_directive(ctx.subgraph_id, directive_name_id) =>
+                {
+                    let arguments = ctx.ingest_extra_directive_arguments(directive.arguments());
+
+                    ctx.subgraphs.push_extra_directive_on_schema_definition(
+                        ctx.subgraph_id,
+                        subgraphs::ExtraDirectiveRecord {
+                            directive_site_id: DirectiveSiteId::from(0usize),
+                            name: directive_name_id,
+                            arguments,
+                            provenance: subgraphs::DirectiveProvenance::ComposedDirective,
+                        },
+                    );
+                }
+
                 DirectiveNameMatch::NoMatch => {
                     let directive_name = ctx.subgraphs.at(directive_name_id);
                     ctx.subgraphs.push_ingestion_warning(
-- 
2.43.0


From c667b1c13fd8f1bcd889288b6af0bb3bd2ff45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 67/83] fix: composition: @composite__ directives survive
 loading a federated graph, and @internal hides what only internal subgraphs
 provide

---
 .../src/federated_graph/from_sdl/directive.rs |  41 ++++++-
 .../render_sdl/render_api_sdl.rs              |  12 +--
 .../render_sdl/render_api_sdl/visibility.rs   | 101 ++++++++++++------
 3 files changed, 117 insertions(+), 37 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
index 21f27e7..de27100 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
@@ -78,10 +78,49 @@ fn parse_common_directives<'a>(
         EXTENSION_DIRECTIVE_DIRECTIVE if state.extensions_loaded => {
             parse_extension_directive(directive, state).map(Some)
         }
-        _ => Ok(Some(parse_other(directive, state))),
+        name => match name.strip_prefix("composite__") {
+            Some(name) => parse_composite_directive(name, directive, state).map(Some),
+            None => Ok(Some(parse_other(directive, state))),
+        },
     }
 }
 
+/// The directives from the composite schemas specification, with the subgraph they come from.
+fn parse_composite_directive<'a>(
+    name: &str,
+    directive: ast::Directive<'a>,
+    state: &mut State<'a>,
+) -> Result<Directive, DomainError> {
+    let graph = directive
+        .get_argument("graph")
+        .and_then(|arg| arg.as_enum_value())
+        .and_then(|graph| state.graph_by_enum_str.get(graph).copied())
+        .ok_or_else(|| DomainError(format!("Missing or unknown graph in composite__{name} directive")))?;
+
+    let field = |state: &mut State<'a>| {
+        directive
+            .get_argument("field")
+            .and_then(|arg| arg.as_str())
+            .map(|field| state.insert_string(field))
+            .ok_or_else(|| DomainError(format!("Missing field argument in composite__{name} directive")))
+    };
+
+    Ok(match name {
+        "lookup" => Directive::CompositeLookup { graph },
+        "derive" => Directive::CompositeDerive { graph },
+        "internal" => Directive::CompositeInternal { graph },
+        "require" => Directive::CompositeRequire {
+            graph,
+            field: field(state)?,
+        },
+        "is" => Directive::CompositeIs {
+            graph,
+            field: field(state)?,
+        },
+        _ => parse_other(directive, state),
+    })
+}
+
 fn parse_join_implements(directive: ast::Directive<'_>, state: &mut State<'_>) -> Result<Directive, DomainError> {
     let Some(graph) = directive.get_argument("graph").and_then(|a| a.as_enum_value()) else {
         let error = DomainError("Missing graph argument in join__implements directive".to_owned());
diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index 1a8ecc4..c83e6de 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -71,13 +71,13 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for object in graph.iter_objects() {
-            if is_inaccessible(&object.directives) {
+            if is_object_inaccessible(graph, &object) {
                 continue;
             }
 
             if graph[object.fields.clone()].iter().all(|field| {
                 let field_name = &graph[field.name];
-                field_name.starts_with("__") || is_inaccessible(&field.directives)
+                field_name.starts_with("__") || is_field_inaccessible(&object.directives, &field.directives)
             }) {
                 continue;
             }
@@ -94,7 +94,7 @@ impl fmt::Display for Renderer<'_> {
                 for field in &graph[object.fields.clone()] {
                     let field_name = &graph[field.name];
 
-                    if field_name.starts_with("__") || is_inaccessible(&field.directives) {
+                    if field_name.starts_with("__") || is_field_inaccessible(&object.directives, &field.directives) {
                         continue;
                     }
 
@@ -115,13 +115,13 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for interface in &graph.interfaces {
-            if is_inaccessible(&interface.directives) {
+            if is_interface_inaccessible(graph, interface) {
                 continue;
             }
 
             if graph[interface.fields.clone()]
                 .iter()
-                .all(|field| is_inaccessible(&field.directives))
+                .all(|field| is_field_inaccessible(&interface.directives, &field.directives))
             {
                 continue;
             }
@@ -136,7 +136,7 @@ impl fmt::Display for Renderer<'_> {
 
             write_block(f, |f| {
                 for field in &graph[interface.fields.clone()] {
-                    if is_inaccessible(&field.directives) {
+                    if is_field_inaccessible(&interface.directives, &field.directives) {
                         continue;
                     }
 
diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
index 9e73eff..3664cf7 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
@@ -1,40 +1,81 @@
-use crate::federated_graph::Directive;
+use crate::federated_graph::{
+    Directive, FederatedGraph, Field, Interface, Object, OverrideLabel, OverrideSource, SubgraphId,
+};
 
 pub(super) fn is_inaccessible(directives: &[Directive]) -> bool {
-    if directives
+    directives
         .iter()
         .any(|directive| matches!(directive, Directive::Inaccessible))
-    {
-        return true;
+}
+
+pub(super) fn is_object_inaccessible(graph: &FederatedGraph, object: &Object) -> bool {
+    is_definition_inaccessible(&object.directives, &graph[object.fields.clone()])
+}
+
+pub(super) fn is_interface_inaccessible(graph: &FederatedGraph, interface: &Interface) -> bool {
+    is_definition_inaccessible(&interface.directives, &graph[interface.fields.clone()])
+}
+
+fn is_definition_inaccessible(directives: &[Directive], fields: &[Field]) -> bool {
+    let mut subgraphs = type_subgraphs(directives).peekable();
+
+    if subgraphs.peek().is_some() {
+        is_hidden(directives, subgraphs)
+    } else {
+        // Root types have no `@join__type`.
+        is_hidden(
+            directives,
+            fields.iter().flat_map(|field| field_subgraphs(&field.directives)),
+        )
+    }
+}
+
+pub(super) fn is_field_inaccessible(parent_directives: &[Directive], directives: &[Directive]) -> bool {
+    let mut subgraphs = field_subgraphs(directives).peekable();
+
+    if subgraphs.peek().is_some() {
+        is_hidden(directives, subgraphs)
+    } else {
+        // The federated SDL leaves `@join__field`s out when all the subgraphs of the type have the field.
+        is_hidden(directives, type_subgraphs(parent_directives))
     }
+}
+
+/// `@inaccessible` elements are hidden, and so are the ones that are `@internal` in all the subgraphs that provide them.
+fn is_hidden(directives: &[Directive], mut subgraphs: impl Iterator<Item = SubgraphId>) -> bool {
+    let internal_in = |subgraph_id: Option<SubgraphId>| {
+        directives.iter().any(|directive| {
+            matches!(directive, Directive::CompositeInternal { graph } if subgraph_id.is_none_or(|id| id == *graph))
+        })
+    };
+
+    is_inaccessible(directives) || (internal_in(None) && subgraphs.all(|id| internal_in(Some(id))))
+}
 
-    let at_least_one_internal = directives
+fn type_subgraphs(directives: &[Directive]) -> impl Iterator<Item = SubgraphId> + '_ {
+    directives
         .iter()
-        .any(|d| matches!(d, Directive::CompositeInternal { .. }));
-
-    at_least_one_internal
-        && directives.iter().all(|directive| {
-            let subgraph_id = match directive {
-                Directive::JoinField(join_field_directive) => {
-                    let Some(subgraph_id) = join_field_directive.subgraph_id else {
-                        return true;
-                    };
-
-                    subgraph_id
-                }
-                Directive::JoinType(join_type_directive) => join_type_directive.subgraph_id,
-                _ => return true,
-            };
-
-            directives.iter().any(|directive| {
-                if let Directive::CompositeInternal {
-                    graph: source_schema_id,
-                } = directive
-                {
-                    subgraph_id == *source_schema_id
-                } else {
-                    false
-                }
+        .filter_map(|directive| directive.as_join_type())
+        .map(|join_type| join_type.subgraph_id)
+}
+
+/// The subgraphs that provide a field, which the ones that are fully overridden do not.
+fn field_subgraphs(directives: &[Directive]) -> impl Iterator<Item = SubgraphId> + '_ {
+    let join_fields = || {
+        directives.iter().filter_map(|directive| match directive {
+            Directive::JoinField(join_field) => Some(join_field),
+            _ => None,
+        })
+    };
+
+    join_fields()
+        .filter_map(|join_field| join_field.subgraph_id)
+        .filter(move |subgraph_id| {
+            !join_fields().any(|join_field| {
+                matches!(
+                    (&join_field.r#override, &join_field.override_label),
+                    (Some(OverrideSource::Subgraph(id)), None | Some(OverrideLabel::Percent(100))) if id == subgraph_id
+                )
             })
         })
 }
-- 
2.43.0


From 819ed8cb7f127b34311f84cdb1b490f810e717ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 68/83] grafbase-sdk: the cfg(wsym) hook makes subgraph schemas

---
 crates/grafbase-sdk/src/types/schema.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/grafbase-sdk/src/types/schema.rs b/crates/grafbase-sdk/src/types/schema.rs
index 8280873..3c82cbc 100644
--- a/crates/grafbase-sdk/src/types/schema.rs
+++ b/crates/grafbase-sdk/src/types/schema.rs
@@ -63,6 +63,14 @@ impl fmt::Debug for SubgraphSchema {
     }
 }
 
+#[cfg(wsym)]
+impl SubgraphSchema {
+    /// The schema as the component makes it from what the host sends.
+    pub fn from_parts(name: String, schema: wit::Schema) -> Self {
+        Self((name, schema).into())
+    }
+}
+
 impl SubgraphSchema {
     /// Name of the subgraph this schema belongs to
     pub fn subgraph_name(&self) -> &str {
-- 
2.43.0


From fbd240269e137e23b71657a108f1b33f3d180c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 69/83] fix: engine: a default does not make the type of a list
 variable one list deeper

---
 crates/engine/operation/src/bind/operation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/engine/operation/src/bind/operation.rs b/crates/engine/operation/src/bind/operation.rs
index dda4950..d4558e6 100644
--- a/crates/engine/operation/src/bind/operation.rs
+++ b/crates/engine/operation/src/bind/operation.rs
@@ -4,7 +4,7 @@ use cynic_parser::{
     executable::{Argument, Directive, FieldSelection, Iter, Selection},
 };
 use id_newtypes::IdRange;
-use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord, Wrapping};
+use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord};
 use std::collections::HashSet;
 use walker::Walk;
 
@@ -416,11 +416,7 @@ impl<'schema, 'p> OperationBinder<'schema, 'p> {
 
             match variable.default_value() {
                 Some(value) if !value.is_null() => {
-                    if ty.wrapping.is_list() {
-                        ty.wrapping = ty.wrapping.list_non_null();
-                    } else {
-                        ty.wrapping = Wrapping::default().non_null()
-                    }
+                    ty.wrapping = ty.wrapping.non_null();
                 }
                 _ => (),
             }
-- 
2.43.0


From 43caed6defcbb482e41e489c554ffd04f91d9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 70/83] fix: engine: integers given to variables of custom
 scalars stay integers

---
 crates/engine/operation/src/bind/coercion/variable.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index 9a3a7bd..add06c2 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -255,12 +255,12 @@ impl<'a> VariableCoercionContext<'a> {
             (value, ScalarType::Unknown) => Ok(match value {
                 Value::Null => VariableInputValueRecord::Null,
                 Value::Number(n) => {
-                    if let Some(n) = n.as_f64() {
-                        VariableInputValueRecord::Float(n)
-                    } else if let Some(n) = n.as_i64() {
+                    if let Some(n) = n.as_i64() {
                         VariableInputValueRecord::I64(n)
+                    } else if let Some(n) = n.as_u64() {
+                        VariableInputValueRecord::U64(n)
                     } else {
-                        VariableInputValueRecord::U64(n.as_u64().unwrap())
+                        VariableInputValueRecord::Float(n.as_f64().unwrap())
                     }
                 }
                 Value::String(s) => VariableInputValueRecord::String(s),
-- 
2.43.0


From 6ab691884af5633839505bee0d51767712b403bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 71/83] fix: engine: floats below the range of Int are
 rejected, not clamped

---
 crates/engine/operation/src/bind/coercion/query.rs    | 2 +-
 crates/engine/operation/src/bind/coercion/variable.rs | 2 +-
 crates/engine/schema/src/builder/coerce/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index 009e67e..e536030 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -449,5 +449,5 @@ fn are_type_compatibles(ty: Type<'_>, used_as: Type<'_>) -> bool {
 }
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index add06c2..9b1f728 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -325,5 +325,5 @@ impl<'a> VariableCoercionContext<'a> {
 }
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
diff --git a/crates/engine/schema/src/builder/coerce/mod.rs b/crates/engine/schema/src/builder/coerce/mod.rs
index 16e34d3..0195404 100644
--- a/crates/engine/schema/src/builder/coerce/mod.rs
+++ b/crates/engine/schema/src/builder/coerce/mod.rs
@@ -12,5 +12,5 @@ pub(crate) use field_selection_map::*;
 pub(crate) use path::*;
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
-- 
2.43.0


From 3426af801f4a128469c90c92f5a3a150e8561da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 72/83] fix: engine: the field of a oneOf input object must not
 be null

---
 crates/engine/operation/src/bind/coercion/query.rs    | 6 ++++++
 crates/engine/operation/src/bind/coercion/variable.rs | 7 +++++++
 crates/engine/schema/src/builder/coerce/schema.rs     | 9 ++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index e536030..48cc95d 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -280,6 +280,12 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
                             location: self.parsed_operation.span_to_location(field.value().span()),
                         });
                     value
+                } else if field.value().is_null() {
+                    return Err(InputValueError::UnexpectedNull {
+                        expected: format!("{}!", input_field.ty()),
+                        path: self.path(),
+                        location: self.location,
+                    });
                 } else {
                     self.coerce_input_value(input_field.ty(), field.value())?
                 };
diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index 9b1f728..b886832 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -170,6 +170,13 @@ impl<'a> VariableCoercionContext<'a> {
             {
                 let value = fields.swap_remove(input_field.name()).unwrap();
                 self.value_path.push(input_field.as_ref().name_id.into());
+                if value.is_null() {
+                    return Err(InputValueError::UnexpectedNull {
+                        expected: format!("{}!", input_field.ty()),
+                        path: self.path(),
+                        location: self.location,
+                    });
+                }
                 let value = self.coerce_input_value(input_field.ty(), value)?;
                 fields_buffer.push((input_field.id, value));
                 self.value_path.pop();
diff --git a/crates/engine/schema/src/builder/coerce/schema.rs b/crates/engine/schema/src/builder/coerce/schema.rs
index b96d7c5..d681d72 100644
--- a/crates/engine/schema/src/builder/coerce/schema.rs
+++ b/crates/engine/schema/src/builder/coerce/schema.rs
@@ -151,8 +151,15 @@ fn coerce_input_object_value(
         {
             let input_field = &builder.graph[id];
             let field = fields.pop().unwrap();
+            let ty_record = input_field.ty_record;
             builder.value_path.push(input_field.name_id.into());
-            let value = coerce_input_value(builder, input_field.ty_record, field.value())?;
+            if field.value().is_null() {
+                return Err(InputValueError::UnexpectedNull {
+                    expected: format!("{}!", builder.type_name(ty_record)),
+                    path: builder.value_path_string(),
+                });
+            }
+            let value = coerce_input_value(builder, ty_record, field.value())?;
             fields_buffer.push((id, value));
             builder.value_path.pop();
         }
-- 
2.43.0


From 9c378d14231b96430c85891b60f7d6f5fe0d47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 73/83] fix: engine: integers are accepted where an ID is
 expected

---
 crates/engine/operation/src/bind/coercion/query.rs    | 3 +++
 crates/engine/operation/src/bind/coercion/variable.rs | 3 +++
 crates/engine/schema/src/builder/coerce/schema.rs     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index 48cc95d..4a188ad 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -414,6 +414,9 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
             (Value::Float(number), ScalarType::Int) if can_coerce_to_int(number.as_f64()) => {
                 Ok(QueryInputValueRecord::Int(number.as_f64() as i32))
             }
+            (Value::Int(number), ScalarType::String) if scalar.name() == "ID" => {
+                Ok(QueryInputValueRecord::String(number.to_string()))
+            }
             (Value::String(value), ScalarType::String) => Ok(QueryInputValueRecord::String(value.as_str().into())),
             (Value::Boolean(value), ScalarType::Boolean) => Ok(QueryInputValueRecord::Boolean(value.value())),
             (Value::Variable(variable), _) => self.variable_ref(
diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index b886832..ec00a85 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -315,6 +315,9 @@ impl<'a> VariableCoercionContext<'a> {
                 };
                 Ok(VariableInputValueRecord::Float(value))
             }
+            (Value::Number(number), ScalarType::String) if scalar.name() == "ID" && !number.is_f64() => {
+                Ok(VariableInputValueRecord::String(number.to_string()))
+            }
             (Value::String(value), ScalarType::String) => Ok(VariableInputValueRecord::String(value)),
             (Value::Bool(value), ScalarType::Boolean) => Ok(VariableInputValueRecord::Boolean(value)),
             (actual, _) => Err(InputValueError::IncorrectScalarType {
diff --git a/crates/engine/schema/src/builder/coerce/schema.rs b/crates/engine/schema/src/builder/coerce/schema.rs
index d681d72..9542e09 100644
--- a/crates/engine/schema/src/builder/coerce/schema.rs
+++ b/crates/engine/schema/src/builder/coerce/schema.rs
@@ -244,6 +244,9 @@ fn coerce_scalar_value(
     match builder.graph[scalar_id].ty {
         ScalarType::String => match value {
             ConstValue::String(s) => Some(builder.ingest_str(s.value())),
+            ConstValue::Int(n) if builder[builder.graph[scalar_id].name_id] == "ID" => {
+                Some(builder.ingest_str(n.to_string()))
+            }
             _ => None,
         }
         .map(SchemaInputValueRecord::String),
-- 
2.43.0


From 33e5be049d41bd79034b835e66c1c7beea890d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:47 +0000
Subject: [PATCH 74/83] fix: engine: naming an operation whose fragments form a
 cycle does not overflow the stack

---
 .../operation/src/analytics/operation_name.rs | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/engine/operation/src/analytics/operation_name.rs b/crates/engine/operation/src/analytics/operation_name.rs
index 20e0c59..ae55430 100644
--- a/crates/engine/operation/src/analytics/operation_name.rs
+++ b/crates/engine/operation/src/analytics/operation_name.rs
@@ -3,12 +3,23 @@ use cynic_parser::executable::{Iter, Selection};
 use crate::parse::ParsedOperation;
 
 pub(crate) fn compute_operation_name(operation: &ParsedOperation) -> Option<String> {
-    fn first_field_in_set(mut selection_set: Iter<'_, Selection<'_>>) -> Option<String> {
-        selection_set.find_map(|selection| match &selection {
+    // The operation isn't validated yet, so its fragments may form a cycle.
+    fn first_field_in_set<'a>(
+        mut selection_set: Iter<'a, Selection<'a>>,
+        visited_fragments: &mut Vec<&'a str>,
+    ) -> Option<String> {
+        selection_set.find_map(|selection| match selection {
             Selection::Field(field) => Some(field.alias().unwrap_or(field.name()).to_string()),
-            Selection::InlineFragment(fragment) => first_field_in_set(fragment.selection_set()),
-            Selection::FragmentSpread(spread) => first_field_in_set(spread.fragment()?.selection_set()),
+            Selection::InlineFragment(fragment) => first_field_in_set(fragment.selection_set(), visited_fragments),
+            Selection::FragmentSpread(spread) => {
+                let fragment = spread.fragment()?;
+                if visited_fragments.contains(&fragment.name()) {
+                    return None;
+                }
+                visited_fragments.push(fragment.name());
+                first_field_in_set(fragment.selection_set(), visited_fragments)
+            }
         })
     }
-    first_field_in_set(operation.operation().selection_set())
+    first_field_in_set(operation.operation().selection_set(), &mut Vec::new())
 }
-- 
2.43.0


From b96a7db055568e13fce71985f1ce2a168bcc07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 75/83] fix: engine: hide what depends on enums and input
 objects of which nothing is left

---
 .../builder/graph/directives/common/mod.rs    | 83 ++++++++++---------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/crates/engine/schema/src/builder/graph/directives/common/mod.rs b/crates/engine/schema/src/builder/graph/directives/common/mod.rs
index 97e1cab..ec80cf2 100644
--- a/crates/engine/schema/src/builder/graph/directives/common/mod.rs
+++ b/crates/engine/schema/src/builder/graph/directives/common/mod.rs
@@ -181,6 +181,22 @@ impl<'sdl> DirectivesIngester<'_, 'sdl> {
 // We don't always have full control over the schema, when coming from a file or schema contract, so we ensure that inaccessibility use is
 // consistent and ends up in a usable schema.
 pub(in crate::builder) fn finalize_inaccessible(graph: &mut Graph) {
+    // An enum must have at least one value. Nothing else makes an enum inaccessible, and the input values, and fields, using
+    // it depend on it.
+    for ix in 0..graph.enum_definitions.len() {
+        let id = EnumDefinitionId::from(ix);
+        if graph.inaccessible.enum_definitions[id] {
+            continue;
+        }
+        if graph[id]
+            .value_ids
+            .into_iter()
+            .all(|id| graph.inaccessible.enum_values[id])
+        {
+            graph.inaccessible.enum_definitions.set(id, true);
+        }
+    }
+
     // If a field argument/input field is inaccessible AND required then the parent field/input object must also
     // be inaccessible as there is no way for a client to provide the necessary inputs to avoid a
     // validation failure.
@@ -219,22 +235,43 @@ pub(in crate::builder) fn finalize_inaccessible(graph: &mut Graph) {
         }
     }
 
-    // Propagating upwards inaccessibility if an input_value is required.
+    // An input object must have at least one field.
+    for ix in 0..graph.input_object_definitions.len() {
+        let id = InputObjectDefinitionId::from(ix);
+        if graph.inaccessible.input_object_definitions[id] {
+            continue;
+        }
+        if graph[id]
+            .input_field_ids
+            .into_iter()
+            .all(|id| graph.inaccessible.input_value_definitions[id])
+        {
+            graph.inaccessible.input_object_definitions.set(id, true);
+        }
+    }
+
+    // Propagating upwards inaccessibility if an input_value is required, or the last field of its input object.
     let mut inaccessible_input_objects = graph.inaccessible.input_object_definitions.ones().collect::<Vec<_>>();
     let output_to_input_value = IdToMany::from(output_to_input_value);
     while let Some(id) = inaccessible_input_objects.pop() {
         for &id in output_to_input_value.find_all(id) {
             if !graph.inaccessible.input_value_definitions.put(id) {
                 let input_value = &graph.input_value_definitions[usize::from(id)];
-                if input_value.ty_record.is_required() && input_value.is_internal_in_id.is_none() {
-                    match input_value.parent_id {
-                        InputValueParentDefinitionId::Field(field_id) => {
+                let is_required = input_value.ty_record.is_required() && input_value.is_internal_in_id.is_none();
+                match input_value.parent_id {
+                    InputValueParentDefinitionId::Field(field_id) => {
+                        if is_required {
                             graph.inaccessible.field_definitions.set(field_id, true);
                         }
-                        InputValueParentDefinitionId::InputObject(input_object_id) => {
-                            if !graph.inaccessible.input_object_definitions.put(input_object_id) {
-                                inaccessible_input_objects.push(input_object_id);
-                            }
+                    }
+                    InputValueParentDefinitionId::InputObject(input_object_id) => {
+                        let is_inaccessible = is_required
+                            || graph[input_object_id]
+                                .input_field_ids
+                                .into_iter()
+                                .all(|id| graph.inaccessible.input_value_definitions[id]);
+                        if is_inaccessible && !graph.inaccessible.input_object_definitions.put(input_object_id) {
+                            inaccessible_input_objects.push(input_object_id);
                         }
                     }
                 }
@@ -242,7 +279,7 @@ pub(in crate::builder) fn finalize_inaccessible(graph: &mut Graph) {
         }
     }
 
-    // Interfaces, unions, enums and input objects must have at least one field/member.
+    // Objects, interfaces and unions must have at least one field/member.
     for ix in 0..graph.object_definitions.len() {
         let id = ObjectDefinitionId::from(ix);
         if graph.inaccessible.object_definitions[id] {
@@ -291,34 +328,6 @@ pub(in crate::builder) fn finalize_inaccessible(graph: &mut Graph) {
     }
     let object_to_unions = IdToMany::from(object_to_union);
 
-    for ix in 0..graph.enum_definitions.len() {
-        let id = EnumDefinitionId::from(ix);
-        if graph.inaccessible.enum_definitions[id] {
-            continue;
-        }
-        if graph[id]
-            .value_ids
-            .into_iter()
-            .all(|id| graph.inaccessible.enum_values[id])
-        {
-            graph.inaccessible.enum_definitions.set(id, true);
-        }
-    }
-
-    for ix in 0..graph.input_object_definitions.len() {
-        let id = InputObjectDefinitionId::from(ix);
-        if graph.inaccessible.input_object_definitions[id] {
-            continue;
-        }
-        if graph[id]
-            .input_field_ids
-            .into_iter()
-            .all(|id| graph.inaccessible.input_value_definitions[id])
-        {
-            graph.inaccessible.input_object_definitions.set(id, true);
-        }
-    }
-
     // Any field or input_value having an inaccessible type is marked as inaccessible.
     let mut newly_inaccessible_types = Vec::<CompositeTypeId>::new();
     let mut composite_type_to_fields = Vec::<(CompositeTypeId, FieldDefinitionId)>::new();
-- 
2.43.0


From e3221c04a65c8f3c5d11ff06a29fe0d44c8a194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 76/83] fix: engine: fields nested in a key exist in the
 subgraph of the key

---
 crates/engine/schema/src/builder/graph/directives/resolvers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/engine/schema/src/builder/graph/directives/resolvers.rs b/crates/engine/schema/src/builder/graph/directives/resolvers.rs
index 022952e..11ee85c 100644
--- a/crates/engine/schema/src/builder/graph/directives/resolvers.rs
+++ b/crates/engine/schema/src/builder/graph/directives/resolvers.rs
@@ -228,6 +228,7 @@ fn create_apollo_federation_entity_resolvers(ingester: &mut DirectivesIngester<'
                     if !field.exists_in_subgraph_ids.contains(&subgraph_id) {
                         field.exists_in_subgraph_ids.push(subgraph_id);
                     }
+                    stack.push(&item.subselection_record);
                 }
             }
 
-- 
2.43.0


From 9a50c8296191a6d01ed637877a7187a6e7ee5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 77/83] fix: engine, mcp: write control characters in strings
 as hexadecimal escapes

---
 crates/engine/schema/src/input_value/walker/display.rs | 2 +-
 crates/engine/schema/src/sdl.rs                        | 2 +-
 crates/mcp/src/tools/sdl/buffer.rs                     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/engine/schema/src/input_value/walker/display.rs b/crates/engine/schema/src/input_value/walker/display.rs
index fc58bfe..edb622d 100644
--- a/crates/engine/schema/src/input_value/walker/display.rs
+++ b/crates/engine/schema/src/input_value/walker/display.rs
@@ -44,7 +44,7 @@ fn write_quoted(s: &str, f: &mut Formatter<'_>) -> Result {
             '\t' => f.write_str("\\t"),
             '"' => f.write_str("\\\""),
             '\\' => f.write_str("\\\\"),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?;
     }
diff --git a/crates/engine/schema/src/sdl.rs b/crates/engine/schema/src/sdl.rs
index 499e210..8cc0e64 100644
--- a/crates/engine/schema/src/sdl.rs
+++ b/crates/engine/schema/src/sdl.rs
@@ -83,7 +83,7 @@ pub(crate) fn write_quoted_string(writer: &mut impl Write, value: &str) -> fmt::
             '\t' => writer.write_str("\\t")?,
             '"' => writer.write_str("\\\"")?,
             '\\' => writer.write_str("\\\\")?,
-            c if c.is_control() => write!(writer, "\\u{:04}", c as u32)?,
+            c if c.is_control() => write!(writer, "\\u{:04x}", c as u32)?,
             c => writer.write_char(c)?,
         }
     }
diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index 653e298..8fb354a 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -44,7 +44,7 @@ impl<'a> Buffer<'a> {
                 '\t' => self.buf.push_str("\\t"),
                 '"' => self.buf.push_str("\\\""),
                 '\\' => self.buf.push_str("\\\\"),
-                c if c.is_control() => write!(self.buf, "\\u{:04}", c as u32).unwrap(),
+                c if c.is_control() => write!(self.buf, "\\u{:04x}", c as u32).unwrap(),
                 c => self.buf.push(c),
             };
         }
-- 
2.43.0


From 5f8caca8a96f6cf66df9f96a5a95d685cd879a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 78/83] fix: engine: costs saturate and weights may be
 negative, instead of wrapping around the limit

---
 .../operation/src/validation/complexity.rs    | 53 +++++++++++--------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/crates/engine/operation/src/validation/complexity.rs b/crates/engine/operation/src/validation/complexity.rs
index 5f851e1..b2d5ac6 100644
--- a/crates/engine/operation/src/validation/complexity.rs
+++ b/crates/engine/operation/src/validation/complexity.rs
@@ -50,7 +50,8 @@ pub fn calculate_complexity(
         variables,
     };
 
-    let cost = base_cost + selection_set_complexity(&context, selection_set, None)?;
+    let cost = selection_set_complexity(&context, selection_set, None)?.saturating_add(base_cost);
+    let cost = usize::try_from(cost.max(0)).unwrap_or(usize::MAX);
 
     tracing::debug!("Complexity was {cost}");
 
@@ -65,11 +66,13 @@ struct ComplexityContext<'a> {
     variables: &'a Variables,
 }
 
+// Costs are signed as weights can be negative. Sizes are chosen by the client, the arithmetic must saturate rather than
+// wrap around the limit.
 fn selection_set_complexity(
     context: &ComplexityContext<'_>,
     selection_set: SelectionSet<'_>,
     field_multipliers: Option<FieldMultipliers>,
-) -> Result<usize, ComplexityError> {
+) -> Result<i64, ComplexityError> {
     Ok(selection_set
         .fields()
         .map(|field| match field {
@@ -89,19 +92,20 @@ fn selection_set_complexity(
         })
         .collect::<Result<Vec<_>, _>>()?
         .into_iter()
-        .sum())
+        .fold(0, i64::saturating_add))
 }
 
 fn field_complexity(
     context: &ComplexityContext<'_>,
     field: DataField<'_>,
     preset_list_size: Option<usize>,
-) -> Result<usize, ComplexityError> {
-    let type_cost = field
+) -> Result<i64, ComplexityError> {
+    let type_cost: i64 = field
         .definition()
         .cost()
         .map(|cost| cost.weight)
-        .unwrap_or_else(|| cost_for_type(field.definition().ty().definition())) as usize;
+        .unwrap_or_else(|| cost_for_type(field.definition().ty().definition()))
+        .into();
 
     let list_size_directive = field.definition().list_size();
 
@@ -110,20 +114,23 @@ fn field_complexity(
     let argument_cost = field
         .sorted_arguments()
         .map(|argument| cost_for_argument(argument, context.variables))
-        .sum::<usize>();
+        .fold(0, i64::saturating_add);
 
-    let this_field_count = child_count.this_field_count();
+    let this_field_count = i64::try_from(child_count.this_field_count()).unwrap_or(i64::MAX);
     let child_field_count = child_count.child_field_count();
 
     let child_cost = selection_set_complexity(context, field.selection_set(), child_field_count)?;
 
-    Ok(this_field_count * (type_cost + argument_cost + child_cost))
+    Ok(type_cost
+        .saturating_add(argument_cost)
+        .saturating_add(child_cost)
+        .saturating_mul(this_field_count))
 }
 
-fn cost_for_argument(argument: FieldArgument<'_>, variables: &Variables) -> usize {
+fn cost_for_argument(argument: FieldArgument<'_>, variables: &Variables) -> i64 {
     let def = argument.definition();
     let argument_type = def.ty().definition();
-    let argument_cost = def.cost().unwrap_or_else(|| cost_for_type(argument_type)) as usize;
+    let argument_cost = def.cost().unwrap_or_else(|| cost_for_type(argument_type)).into();
 
     let Ok(value) = serde_json::Value::deserialize(argument.value(variables)) else {
         tracing::warn!("Could not deserialize value when calculating cost");
@@ -139,26 +146,27 @@ fn cost_for_argument(argument: FieldArgument<'_>, variables: &Variables) -> usiz
 fn cost_for_object_value(
     value: &serde_json::Value,
     object: InputObjectDefinition<'_>,
-    base_object_cost: usize,
-) -> usize {
+    base_object_cost: i64,
+) -> i64 {
     match value {
         serde_json::Value::Array(values) => values
             .iter()
             .map(|value| cost_for_object_value(value, object, base_object_cost))
-            .sum(),
+            .fold(0, i64::saturating_add),
         serde_json::Value::Object(map) => {
             let mut overall_cost = base_object_cost;
             for (name, value) in map {
                 let Some(field) = object.input_fields().find(|field| field.name() == name) else {
                     continue;
                 };
-                let field_cost = field.cost().unwrap_or(cost_for_type(field.ty().definition())) as usize;
+                let field_cost = field.cost().unwrap_or(cost_for_type(field.ty().definition())).into();
 
-                if let schema::TypeDefinition::InputObject(object) = field.ty().definition() {
-                    overall_cost += cost_for_object_value(value, object, field_cost);
+                let value_cost = if let schema::TypeDefinition::InputObject(object) = field.ty().definition() {
+                    cost_for_object_value(value, object, field_cost)
                 } else {
-                    overall_cost += cost_for_input_scalar(value, field_cost);
-                }
+                    cost_for_input_scalar(value, field_cost)
+                };
+                overall_cost = overall_cost.saturating_add(value_cost);
             }
             overall_cost
         }
@@ -166,9 +174,12 @@ fn cost_for_object_value(
     }
 }
 
-fn cost_for_input_scalar(value: &serde_json::Value, item_cost: usize) -> usize {
+fn cost_for_input_scalar(value: &serde_json::Value, item_cost: i64) -> i64 {
     match value {
-        serde_json::Value::Array(values) => values.iter().map(|value| cost_for_input_scalar(value, item_cost)).sum(),
+        serde_json::Value::Array(values) => values
+            .iter()
+            .map(|value| cost_for_input_scalar(value, item_cost))
+            .fold(0, i64::saturating_add),
         _ => item_cost,
     }
 }
-- 
2.43.0


From b6d599638aa5b1a4f4d997add1dc94be3e09923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 79/83] fix: engine: use the assumed list size when no slicing
 argument is given

---
 crates/engine/operation/src/validation/complexity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/engine/operation/src/validation/complexity.rs b/crates/engine/operation/src/validation/complexity.rs
index b2d5ac6..78f9158 100644
--- a/crates/engine/operation/src/validation/complexity.rs
+++ b/crates/engine/operation/src/validation/complexity.rs
@@ -253,7 +253,8 @@ fn calculate_child_count<'a>(
             )));
         }
 
-        multiplier = slicing_arguments.into_iter().max().unwrap_or(context.default_list_size);
+        // Without slicing arguments the size is the assumed one.
+        multiplier = slicing_arguments.into_iter().max().unwrap_or(multiplier);
     }
 
     let mut sized_fields = directive.sized_fields().peekable();
-- 
2.43.0


From 88de7f401fe2722018d9f4fa55b7b9ed4da62016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 80/83] fix: graphql-composition: @cost and @listSize can be
 imported from the federation specification

---
 .../src/ingest_subgraph/directives/match_name.rs                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
index ce408f6..081c3a1 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
@@ -147,11 +147,13 @@ fn match_federation_directive_by_original_name(original_name: &str) -> Directive
     match original_name {
         AUTHENTICATED => DirectiveNameMatch::Authenticated,
         COMPOSE_DIRECTIVE => DirectiveNameMatch::ComposeDirective,
+        COST => DirectiveNameMatch::Cost,
         EXTENDS => DirectiveNameMatch::Extends,
         EXTERNAL => DirectiveNameMatch::External,
         INACCESSIBLE => DirectiveNameMatch::Inaccessible,
         INTERFACE_OBJECT => DirectiveNameMatch::InterfaceObject,
         KEY => DirectiveNameMatch::Key,
+        LIST_SIZE => DirectiveNameMatch::ListSize,
         OVERRIDE => DirectiveNameMatch::Override,
         POLICY => DirectiveNameMatch::Policy,
         PROVIDES => DirectiveNameMatch::Provides,
-- 
2.43.0


From ce7104f558d01c0847129ae2733f1ee13bb24667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 81/83] fix: mcp: do not show what is inaccessible to clients

---
 crates/mcp/src/tools/introspect.rs |  5 +++-
 crates/mcp/src/tools/sdl/buffer.rs | 44 ++++++++++++++----------------
 crates/mcp/src/tools/sdl/mod.rs    |  7 +++--
 crates/mcp/src/tools/search/mod.rs |  8 +++---
 4 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/crates/mcp/src/tools/introspect.rs b/crates/mcp/src/tools/introspect.rs
index 3f2757d..5812b7c 100644
--- a/crates/mcp/src/tools/introspect.rs
+++ b/crates/mcp/src/tools/introspect.rs
@@ -52,7 +52,10 @@ impl<R: engine::Runtime> IntrospectTool<R> {
         let mut errors = Vec::new();
 
         for type_name in types {
-            let Some(type_definition) = schema.type_definition_by_name(&type_name) else {
+            let Some(type_definition) = schema
+                .type_definition_by_name(&type_name)
+                .filter(|definition| !definition.is_inaccessible())
+            else {
                 errors.push(format!("Type '{type_name}' not found"));
                 continue;
             };
diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index 8fb354a..e8a3454 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -124,15 +124,15 @@ impl<'a> Buffer<'a> {
         self.push_str(field.name());
 
         // Format arguments if any
-        let args = field.arguments();
-        if args.len() > 0 {
+        let args: Vec<_> = field.arguments().filter(|arg| !arg.is_inaccessible()).collect();
+        if !args.is_empty() {
             self.push('(');
             self.indent += 1;
 
-            let multiline = field.arguments().any(|arg| arg.description().is_some());
+            let multiline = args.iter().any(|arg| arg.description().is_some());
             if multiline {
                 self.push('\n');
-                for (i, arg) in args.enumerate() {
+                for (i, arg) in args.into_iter().enumerate() {
                     if i > 0 {
                         let last = self.pop();
                         debug_assert_eq!(last, Some('\n'));
@@ -143,7 +143,7 @@ impl<'a> Buffer<'a> {
                 self.indent -= 1;
                 self.write_indent();
             } else {
-                for (i, arg) in args.enumerate() {
+                for (i, arg) in args.into_iter().enumerate() {
                     if i > 0 {
                         let last = self.pop();
                         debug_assert_eq!(last, Some('\n'));
@@ -177,12 +177,10 @@ impl<'a> Buffer<'a> {
         self.push_str("type ");
         self.push_str(object.name());
 
-        if opt.interfaces && object.interfaces().len() > 0 {
-            self.push_str(" implements ");
-            for (i, interface) in object.interfaces().enumerate() {
-                if i > 0 {
-                    self.push_str(" & ");
-                }
+        if opt.interfaces {
+            let interfaces = object.interfaces().filter(|interface| !interface.is_inaccessible());
+            for (i, interface) in interfaces.enumerate() {
+                self.push_str(if i > 0 { " & " } else { " implements " });
                 self.push_str(interface.name());
             }
         }
@@ -201,7 +199,7 @@ impl<'a> Buffer<'a> {
                 }
             }
             None => {
-                for field in object.fields() {
+                for field in object.fields().filter(|field| !field.is_inaccessible()) {
                     self.write_field_definition(field);
                 }
             }
@@ -223,12 +221,10 @@ impl<'a> Buffer<'a> {
         self.push_str("interface ");
         self.push_str(interface.name());
 
-        if opt.interfaces && interface.interfaces().len() > 0 {
-            self.push_str(" implements ");
-            for (i, interface) in interface.interfaces().enumerate() {
-                if i > 0 {
-                    self.push_str(" & ");
-                }
+        if opt.interfaces {
+            let interfaces = interface.interfaces().filter(|interface| !interface.is_inaccessible());
+            for (i, interface) in interfaces.enumerate() {
+                self.push_str(if i > 0 { " & " } else { " implements " });
                 self.push_str(interface.name());
             }
         }
@@ -243,7 +239,7 @@ impl<'a> Buffer<'a> {
                 }
             }
             None => {
-                for field in interface.fields() {
+                for field in interface.fields().filter(|field| !field.is_inaccessible()) {
                     self.write_field_definition(field);
                 }
             }
@@ -285,7 +281,7 @@ impl<'a> Buffer<'a> {
         self.push_str(" {\n");
         self.indent += 1;
 
-        for value in enum_def.values() {
+        for value in enum_def.values().filter(|value| !value.is_inaccessible()) {
             if let Some(description) = value.description() {
                 self.write_description(description);
             }
@@ -311,8 +307,10 @@ impl<'a> Buffer<'a> {
         self.push_str(union.name());
         self.push_str(" = ");
 
-        let types: Vec<_> = union.possible_types_ordered_by_typename().collect();
-        for (i, ty) in types.iter().enumerate() {
+        let types = union
+            .possible_types_ordered_by_typename()
+            .filter(|ty| !ty.is_inaccessible());
+        for (i, ty) in types.enumerate() {
             if i > 0 {
                 self.push_str(" | ");
             }
@@ -332,7 +330,7 @@ impl<'a> Buffer<'a> {
         self.push_str(" {\n");
         self.indent += 1;
 
-        for field in input_object.input_fields() {
+        for field in input_object.input_fields().filter(|field| !field.is_inaccessible()) {
             self.write_input_value(field, true);
         }
 
diff --git a/crates/mcp/src/tools/sdl/mod.rs b/crates/mcp/src/tools/sdl/mod.rs
index e397cc5..3b5489c 100644
--- a/crates/mcp/src/tools/sdl/mod.rs
+++ b/crates/mcp/src/tools/sdl/mod.rs
@@ -175,6 +175,9 @@ impl SdlBuilder<'_> {
             if !ty.is_object() && depth <= self.params.max_depth && score > f32::EPSILON {
                 let interfaces = ty.is_interface();
                 for id in ty.possible_type_ids() {
+                    if self.schema.walk(*id).is_inaccessible() {
+                        continue;
+                    }
                     self.sites_by_depth[depth as usize].push(SiteTask {
                         id: (*id).into(),
                         score,
@@ -189,7 +192,7 @@ impl SdlBuilder<'_> {
         if let Some(entity) = ty.as_entity()
             && self.content[&ty.id()].fields_subset.is_none()
         {
-            for field in entity.fields() {
+            for field in entity.fields().filter(|field| !field.is_inaccessible()) {
                 self.sites_by_depth[depth as usize].push(SiteTask {
                     id: field.id.into(),
                     score,
@@ -205,7 +208,7 @@ impl SdlBuilder<'_> {
             return;
         }
 
-        for arg in field.arguments() {
+        for arg in field.arguments().filter(|arg| !arg.is_inaccessible()) {
             self.generate_content_for_type(arg.ty().definition(), depth, score * DECAY_FACTOR, false);
         }
 
diff --git a/crates/mcp/src/tools/search/mod.rs b/crates/mcp/src/tools/search/mod.rs
index 3bcd1bc..f81f553 100644
--- a/crates/mcp/src/tools/search/mod.rs
+++ b/crates/mcp/src/tools/search/mod.rs
@@ -186,20 +186,20 @@ impl SchemaIndex {
             let mut visited_interfaces = fixedbitset::FixedBitSet::with_capacity(schema.interface_definitions().len());
             let mut queue = VecDeque::new();
             visited_objects.put(usize::from(schema.query().id));
-            for field in schema.query().fields() {
+            for field in schema.query().fields().filter(|field| !field.is_inaccessible()) {
                 queue.push_back(field);
                 shortest_path_depth[usize::from(field.id)] = 0;
             }
             if let Some(mutation) = schema.mutation() {
                 visited_objects.put(usize::from(mutation.id));
-                for field in mutation.fields() {
+                for field in mutation.fields().filter(|field| !field.is_inaccessible()) {
                     queue.push_back(field);
                     shortest_path_depth[usize::from(field.id)] = 0;
                 }
             }
             if let Some(subscription) = schema.subscription() {
                 visited_objects.put(usize::from(subscription.id));
-                for field in subscription.fields() {
+                for field in subscription.fields().filter(|field| !field.is_inaccessible()) {
                     queue.push_back(field);
                     shortest_path_depth[usize::from(field.id)] = 0;
                 }
@@ -220,7 +220,7 @@ impl SchemaIndex {
                         }
                     }
                 }
-                for field in entity.fields() {
+                for field in entity.fields().filter(|field| !field.is_inaccessible()) {
                     shortest_path_parent[usize::from(field.id)] = parent_field.id;
                     shortest_path_depth[usize::from(field.id)] = shortest_path_depth[usize::from(parent_field.id)] + 1;
                     queue.push_back(field);
-- 
2.43.0


From 43bc8f0f2da54013b4e189cd7b36ee89ce7a06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 82/83] fix: mcp: descriptions with backslashes, quotes or
 control characters are shown as they are

---
 crates/mcp/src/tools/sdl/buffer.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index e8a3454..3848074 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -4,7 +4,6 @@ use engine_schema::{
     EnumDefinition, FieldDefinition, InputObjectDefinition, InputValueDefinition, InterfaceDefinition,
     ObjectDefinition, ScalarDefinition, TypeDefinition, UnionDefinition,
 };
-use itertools::Itertools;
 use std::fmt::Write;
 
 pub struct Buffer<'a> {
@@ -53,27 +52,23 @@ impl<'a> Buffer<'a> {
 
     pub fn write_description(&mut self, description: &str) {
         self.write_indent();
-        if description.contains('\n') {
+        // Within a block string nothing needs to be escaped.
+        let is_block = description.contains('\n')
+            && !description.contains("\"\"\"")
+            && !description.chars().any(|c| c.is_control() && !matches!(c, '\n' | '\t'));
+        if is_block {
             self.buf.push_str("\"\"\"\n");
             for line in description.split('\n') {
                 self.write_indent();
                 // Trim trailing whitespace
-                let trimmed = line.trim_end();
-                if !trimmed.is_empty() {
-                    for part in Itertools::intersperse(trimmed.split('"'), r#"\""#) {
-                        self.buf.push_str(part);
-                    }
-                }
+                self.buf.push_str(line.trim_end());
                 self.buf.push('\n');
             }
             self.write_indent();
             self.buf.push_str("\"\"\"\n");
         } else {
-            self.buf.push('"');
-            for part in Itertools::intersperse(description.trim_end().split('"'), r#"\""#) {
-                self.buf.push_str(part);
-            }
-            self.buf.push_str("\"\n");
+            self.write_quoted(description.trim_end());
+            self.buf.push('\n');
         }
     }
 
-- 
2.43.0


From a1522db587665d640e9b1627d84e646b098a2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 83/83] fix: mcp: show that input objects are @oneOf

---
 crates/mcp/src/tools/sdl/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index 3848074..9f5f285 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -322,6 +322,9 @@ impl<'a> Buffer<'a> {
 
         self.push_str("input ");
         self.push_str(input_object.name());
+        if input_object.is_one_of {
+            self.push_str(" @oneOf");
+        }
         self.push_str(" {\n");
         self.indent += 1;
 
-- 
2.43.0

