From bbb10adba1222fadbb0ecab80c8cd5daa3182bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 01/38] fix: pair only surrogate escapes in string values

A unicode escape directly before a surrogate pair, e.g. "\u00E9\uD83D\uDD25",
was paired with the leading surrogate and the string was rejected.
---
 .../src/lexer/logos_lexer/string_lexer.rs     | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..4d69d10 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -9,6 +9,7 @@ use std::borrow::Cow;
 #[derive(Logos, Debug)]
 #[logos(subpattern hexdigit = r"[0-9A-Fa-f]")]
 #[logos(subpattern fixedunicode = r"\\u[0-9A-Fa-f]{4}")]
+#[logos(subpattern surrogate = r"\\u[Dd][89A-Fa-f][0-9A-Fa-f]{2}")]
 pub(super) enum Token<'a> {
     #[regex(r#"[^\\"\n\r]+"#)]
     SourceCharacters(&'a str),
@@ -17,10 +18,10 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"(?&surrogate)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
-    SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
+    SurrogatePairEscapedUnicode(Result<char, Span>),
 
     #[regex(r"\\u\{(?&hexdigit)+\}", parse_escaped_unicode)]
     EscapedUnicode(Option<char>),
@@ -73,30 +74,21 @@ fn parse_fixed_width_escaped_unicode<'a>(lexer: &mut Lexer<'a, Token<'a>>) -> Op
         .and_then(char::from_u32)
 }
 
+/// Only called if the first escape sequence is a surrogate.
 fn parse_surrogate_pair_escaped_unicode<'a>(
     lexer: &mut Lexer<'a, Token<'a>>,
-) -> Result<(char, Option<char>), Span> {
+) -> Result<char, Span> {
     let leading_value = u32::from_str_radix(&lexer.slice()[2..6], 16)
         .map_err(|_| Span::from(lexer.span().start..(lexer.span().start + 6)))?;
     let trailing_value = u32::from_str_radix(&lexer.slice()[8..], 16)
         .map_err(|_| Span::from((lexer.span().start + 6)..lexer.span().end))?;
-    if (0xD800..=0xDBFF).contains(&leading_value) {
-        if (0xDC00..=0xDFFF).contains(&trailing_value) {
-            let raw_value = (leading_value - 0xD800) * 0x400 + (trailing_value - 0xDC00) + 0x10000;
-            char::from_u32(raw_value)
-                .map(|c| (c, None))
-                .ok_or_else(|| lexer.span().into())
-        } else {
-            Err(Span::from((lexer.span().start + 6)..lexer.span().end))
-        }
+    if !(0xD800..=0xDBFF).contains(&leading_value) {
+        Err(Span::from(lexer.span().start..(lexer.span().start + 6)))
+    } else if (0xDC00..=0xDFFF).contains(&trailing_value) {
+        let raw_value = (leading_value - 0xD800) * 0x400 + (trailing_value - 0xDC00) + 0x10000;
+        char::from_u32(raw_value).ok_or_else(|| lexer.span().into())
     } else {
-        char::from_u32(leading_value)
-            .ok_or_else(|| Span::from(lexer.span().start..(lexer.span().start + 6)))
-            .and_then(|leading_char| {
-                char::from_u32(trailing_value)
-                    .ok_or_else(|| Span::from((lexer.span().start + 6)..lexer.span().end))
-                    .map(|trailing_char| (leading_char, Some(trailing_char)))
-            })
+        Err(Span::from((lexer.span().start + 6)..lexer.span().end))
     }
 }
 
@@ -128,11 +120,7 @@ impl<'a> Token<'a> {
                         )),
                     },
                     Self::SurrogatePairEscapedUnicode(chars) => match chars {
-                        Ok((c, None)) => formatted.to_mut().push(c),
-                        Ok((leading, Some(trailing))) => {
-                            formatted.to_mut().push(leading);
-                            formatted.to_mut().push(trailing);
-                        }
+                        Ok(c) => formatted.to_mut().push(c),
                         Err(span) => errors.push(
                             StringValueLexError::InvalidUnicodeEscapeSequence(span + span_offset),
                         ),
-- 
2.43.0


From 249628a331c490bff707b9bb567e743e95198f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 02/38] fix: check the fields of a spread fragment against the
 fragment's own type

FieldSelectionMerging resolved the fields of a fragment's selection set on the
type of the enclosing selection set instead of the fragment's type condition,
and cached the result for the fragment definition.
---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..41fe9fc 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -299,7 +299,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From a6926e049aeef1ac42c39528e3ee4817f0a82343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 03/38] fix: report errors without annotations as GraphQL
 errors

---
 bluejay-parser/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 265e6b3..190ca7d 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -64,6 +64,11 @@ impl Error {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
                     }))
+                } else if err.secondary_annotations.is_empty() {
+                    Either::Left(std::iter::once(GraphQLError {
+                        message: err.message,
+                        locations: Vec::new(),
+                    }))
                 } else {
                     Either::Right(err.secondary_annotations.into_iter().map(
                         |secondary_annotation| {
-- 
2.43.0


From b698891930b466b106be94d04f35057d2a432dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 04/38] fix: reject float values that are too large to
 represent

---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From 14abd6af3052a3d8851e7ff3b60cdb7876fb9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 05/38] fix: count the distinct root response names of a
 subscription through its fragments

---
 ...ubscription_operation_single_root_field.rs | 67 +++++++++++++------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..5a655c1 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -4,10 +4,11 @@ use crate::executable::{
 };
 use bluejay_core::definition::SchemaDefinition;
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::HashSet;
 
 pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
@@ -32,29 +33,53 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+        let mut response_names = HashSet::new();
+        self.collect_response_names(
+            core_operation_definition.selection_set(),
+            &mut HashSet::new(),
+            &mut response_names,
+        );
+        if response_names.len() > 1 {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
-                SelectionReference::FragmentSpread(fs) => {
-                    let fragment_definition = self
-                        .executable_document
-                        .fragment_definitions()
-                        .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+        }
+    }
+}
+
+impl<'a, E: ExecutableDocument> SubscriptionOperationSingleRootField<'a, E> {
+    fn collect_response_names(
+        &self,
+        selection_set: &'a E::SelectionSet,
+        visited_fragments: &mut HashSet<&'a str>,
+        response_names: &mut HashSet<&'a str>,
+    ) {
+        selection_set
+            .iter()
+            .for_each(|selection| match selection.as_ref() {
+                SelectionReference::Field(field) => {
+                    response_names.insert(field.response_name());
                 }
-                SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                SelectionReference::FragmentSpread(fs) => {
+                    if visited_fragments.insert(fs.name()) {
+                        if let Some(fragment_definition) = self
+                            .executable_document
+                            .fragment_definitions()
+                            .find(|fd| fd.name() == fs.name())
+                        {
+                            self.collect_response_names(
+                                fragment_definition.selection_set(),
+                                visited_fragments,
+                                response_names,
+                            );
+                        }
+                    }
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
-        }
+                SelectionReference::InlineFragment(inline_fragment) => self.collect_response_names(
+                    inline_fragment.selection_set(),
+                    visited_fragments,
+                    response_names,
+                ),
+            });
     }
 }
 
-- 
2.43.0


From a4a70398d1a09ae6408e309b10c8d8e9fa5e8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 06/38] fix: check that fields selected on a union can be
 merged

---
 .../src/executable/document/rules/field_selection_merging.rs  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 41fe9fc..f856146 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_) | TypeDefinitionReference::Union(_) => {
+                            abstract_group.push(field_context)
+                        }
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From 290edea4715dea2f3052b2e7e7bd0f47dc7d460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 07/38] fix: report merge conflicts in an order that does not
 depend on hashing

---
 .../document/rules/field_selection_merging.rs  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index f856146..c592705 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -11,7 +11,7 @@ use bluejay_core::executable::{
     SelectionReference,
 };
 use bluejay_core::{Arguments, AsIter, Indexed};
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::ops::Not;
 
 pub struct FieldSelectionMerging<'a, E: ExecutableDocument, S: SchemaDefinition> {
@@ -66,7 +66,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
 
     fn fields_in_set_can_merge(
         &mut self,
-        grouped_fields: HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
+        grouped_fields: BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         selection_set: &'a E::SelectionSet,
     ) -> Vec<Error<'a, E, S>> {
         let mut errors = Vec::new();
@@ -140,11 +140,11 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         }
 
         type Group<'a, 'b, E, S> = Vec<&'b FieldContext<'a, E, S>>;
-        type ConcreteGroups<'a, 'b, E, S> = HashMap<&'a str, Group<'a, 'b, E, S>>;
+        type ConcreteGroups<'a, 'b, E, S> = BTreeMap<&'a str, Group<'a, 'b, E, S>>;
 
         let (abstract_group, concrete_groups): (Group<'a, '_, E, S>, ConcreteGroups<'a, '_, E, S>) =
             fields_for_name.iter().fold(
-                (Vec::new(), HashMap::new()),
+                (Vec::new(), BTreeMap::new()),
                 |(mut abstract_group, mut concrete_groups), field_context| {
                     match field_context.parent_type {
                         TypeDefinitionReference::Object(otd) => concrete_groups
@@ -227,8 +227,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         selection_set: &'a E::SelectionSet,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
-    ) -> HashMap<&'a str, Vec<FieldContext<'a, E, S>>> {
-        let mut fields = HashMap::new();
+    ) -> BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>> {
+        let mut fields = BTreeMap::new();
         self.visit_selections_for_fields(
             selection_set.iter(),
             &mut fields,
@@ -241,11 +241,11 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
     fn field_contexts_contained_fields<'b>(
         &mut self,
         field_contexts: impl Iterator<Item = &'b FieldContext<'a, E, S>>,
-    ) -> HashMap<&'a str, Vec<FieldContext<'a, E, S>>>
+    ) -> BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>
     where
         'a: 'b,
     {
-        let mut fields = HashMap::new();
+        let mut fields = BTreeMap::new();
         field_contexts.for_each(|field_context| {
             if let Some(selection_set) = field_context.field.selection_set() {
                 if let Some(parent_type) = self
@@ -269,7 +269,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
     fn visit_selections_for_fields(
         &mut self,
         selections: impl Iterator<Item = &'a E::Selection>,
-        fields: &mut HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
+        fields: &mut BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
         parent_fragments: &HashSet<&'a str>,
     ) {
-- 
2.43.0


From fa3355972bdd3e357ce1fb5aa2859500ce7e4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 08/38] fix: check variables used in input objects within lists

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From d1248034170a33c2c2254a9fe968370752dfdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 09/38] fix: keep fields that share a name apart when one was
 looked up before listing

---
 bluejay-visibility/src/fields_definition.rs | 27 ++++++++++-----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/bluejay-visibility/src/fields_definition.rs b/bluejay-visibility/src/fields_definition.rs
index 0bb86f9..498aeb8 100644
--- a/bluejay-visibility/src/fields_definition.rs
+++ b/bluejay-visibility/src/fields_definition.rs
@@ -38,20 +38,19 @@ impl<'a, S: SchemaDefinition + 'a, W: Warden<SchemaDefinition = S>> AsIter
                     .iter()
                     .filter(|fd| self.cache.warden().is_field_definition_visible(fd))
                     .filter_map(|fd| {
-                        self.indexed_fields_definition
-                            .get(fd.name())
-                            .or_else(|| {
-                                let scoped_fd = FieldDefinition::new(fd, self.cache).map(Rc::new);
-                                if let Some(scoped_fd) = scoped_fd {
-                                    Some(
-                                        self.indexed_fields_definition
-                                            .insert(fd.name(), Box::new(scoped_fd)),
-                                    )
-                                } else {
-                                    None
-                                }
-                            })
-                            .cloned()
+                        // another field definition with the same name may have been indexed already
+                        let indexed_fd = self.indexed_fields_definition.get(fd.name());
+                        if let Some(indexed_fd) =
+                            indexed_fd.filter(|indexed_fd| std::ptr::eq(indexed_fd.inner(), fd))
+                        {
+                            return Some(indexed_fd.clone());
+                        }
+                        let scoped_fd = FieldDefinition::new(fd, self.cache).map(Rc::new)?;
+                        if indexed_fd.is_none() {
+                            self.indexed_fields_definition
+                                .insert(fd.name(), Box::new(scoped_fd.clone()));
+                        }
+                        Some(scoped_fd)
                     })
                     .collect()
             })
-- 
2.43.0


From b2dc49b533137b2c413168ebadf5001abe43327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 10/38] fix: insert builtin scalars and directives in a fixed
 order

---
 .../src/ast/definition/definition_document.rs | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..1b088b5 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -12,7 +12,7 @@ use bluejay_core::{
     AsIter, BuiltinScalarDefinition, Directive as _, IntoEnumIterator, OperationType,
 };
 use std::collections::btree_map::Entry;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 
 mod definition_document_error;
 use definition_document_error::DefinitionDocumentError;
@@ -187,16 +187,15 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
     /// Inserts builtin scalars only for type names that have not already been parsed
     /// to allow overriding of builtin scalars
     fn insert_builtin_scalar_definitions(&mut self) {
-        let mut builtin_scalars_by_name: HashMap<&str, BuiltinScalarDefinition> =
-            HashMap::from_iter(BuiltinScalarDefinition::iter().map(|bstd| (bstd.name(), bstd)));
-
-        self.type_definitions.iter().for_each(|td| {
-            builtin_scalars_by_name.remove(td.name());
-        });
+        let defined_names: HashSet<String> = self
+            .type_definitions
+            .iter()
+            .map(|td| td.name().to_owned())
+            .collect();
 
         self.type_definitions.extend(
-            builtin_scalars_by_name
-                .into_values()
+            BuiltinScalarDefinition::iter()
+                .filter(|bstd| !defined_names.contains(bstd.name()))
                 .map(TypeDefinition::BuiltinScalar),
         );
     }
@@ -204,19 +203,15 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
     /// Inserts builtin directive definitions only for type names that have not already been parsed
     /// to allow optional explicit definition of builtin definitions (since they are optional)
     fn insert_builtin_directive_definitions(&mut self) {
-        let mut builtin_directive_definitions_by_name: HashMap<&str, BuiltinDirectiveDefinition> =
-            HashMap::from_iter(
-                BuiltinDirectiveDefinition::iter()
-                    .map(|bdd: BuiltinDirectiveDefinition| (bdd.into(), bdd)),
-            );
-
-        self.directive_definitions().iter().for_each(|dd| {
-            builtin_directive_definitions_by_name.remove(dd.name());
-        });
+        let defined_names: HashSet<String> = self
+            .directive_definitions
+            .iter()
+            .map(|dd| dd.name().to_owned())
+            .collect();
 
         self.directive_definitions.extend(
-            builtin_directive_definitions_by_name
-                .into_values()
+            BuiltinDirectiveDefinition::iter()
+                .filter(|bdd| !defined_names.contains(<&str>::from(*bdd)))
                 .map(DirectiveDefinition::from),
         );
     }
-- 
2.43.0


From f236ec54baf41dc605ff802ceb14add863abafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 11/38] fix: refuse undefined directives on an explicit schema
 definition

---
 .../src/ast/definition/definition_document.rs | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 1b088b5..88de3ca 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -682,16 +682,23 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
         if let Some(directives) = subject.directives() {
-            directives.iter().for_each(|directive| {
-                match indexed_directive_definitions.get(directive.name()) {
-                    Some(_) => {}
-                    None => errors.push(DefinitionDocumentError::ReferencedDirectiveDoesNotExist {
-                        directive,
-                    }),
-                }
-            })
+            Self::resolve_directives(indexed_directive_definitions, directives, errors);
         }
     }
+
+    fn resolve_directives(
+        indexed_directive_definitions: &BTreeMap<&str, &'a DirectiveDefinition<'a, C>>,
+        directives: &'a Directives<'a, C>,
+        errors: &mut Vec<DefinitionDocumentError<'a, C>>,
+    ) {
+        directives.iter().for_each(
+            |directive| match indexed_directive_definitions.get(directive.name()) {
+                Some(_) => {}
+                None => errors
+                    .push(DefinitionDocumentError::ReferencedDirectiveDoesNotExist { directive }),
+            },
+        )
+    }
 }
 
 impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition<'a, C> {
@@ -711,6 +718,18 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .filter_map(ExplicitSchemaDefinition::directives)
+            .for_each(|directives| {
+                DefinitionDocument::resolve_directives(
+                    &indexed_directive_definitions,
+                    directives,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
-- 
2.43.0


From d69099d4c6eded55f733095d4f20b78a0123722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:11 +0000
Subject: [PATCH 12/38] fix: add the introspection entry points only to the
 actual query root

---
 bluejay-parser/src/ast/definition/definition_document.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 88de3ca..0421a75 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -229,12 +229,19 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
                 }),
         );
 
+        let has_explicit_schema = !self.schema_definitions.is_empty();
+
         self.type_definitions
             .iter_mut()
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    let is_query_root = if has_explicit_schema {
+                        explicit_query_roots.contains(name)
+                    } else {
+                        name == "Query"
+                    };
+                    if is_query_root {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From 734a49715e5e5ec98cac1c585145a62397bf09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 13/38] fix: report unused variable values in an order that
 does not depend on hashing

---
 .../operation/analyzers/variable_values_are_valid.rs          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs b/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
index 50e5020..82a10fe 100644
--- a/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::marker::PhantomData;
 
 use crate::{
@@ -19,7 +19,7 @@ pub struct VariableValuesAreValid<
 > {
     executable_document: PhantomData<E>,
     schema_definition: &'a S,
-    indexed_variable_values: HashMap<&'a str, (&'a VV::Key, &'a VV::Value)>,
+    indexed_variable_values: BTreeMap<&'a str, (&'a VV::Key, &'a VV::Value)>,
     cache: &'a Cache<'a, E, S>,
     errors: Vec<VariableValueError<'a, E, VV>>,
 }
-- 
2.43.0


From f04a35ebdf820a0134cbdf5411f414f9f9690879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 14/38] fix: measure the default value of the variable that is
 used, not of one named like the argument

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From 167df181646041f91e477057d65fbd708ee47560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 15/38] fix: saturate instead of overflowing when computing
 complexity costs

---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..50f3b5b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -277,9 +277,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From e52f3b6c36d9a9ff7c80d919cfe30c2464fe33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 16/38] fix: visit each fragment once per target when looking
 for cycles

---
 .../rules/fragment_spreads_must_not_form_cycles.rs     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
index c174667..965584d 100644
--- a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
+++ b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
@@ -22,14 +22,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
         >,
         target: &'a E::FragmentDefinition,
         fragment_definition_name: &'a str,
-        visited_fragment_definitions: &HashSet<&'a str>,
+        visited_fragment_definitions: &mut HashSet<&'a str>,
     ) -> Option<Error<'a, E, S>> {
-        if visited_fragment_definitions.contains(fragment_definition_name) {
+        if !visited_fragment_definitions.insert(fragment_definition_name) {
             return None;
         }
         if let Some((_, spreads)) = spreads_by_fragment_definition.get(fragment_definition_name) {
-            let mut visited_fragment_definitions = visited_fragment_definitions.clone();
-            visited_fragment_definitions.insert(fragment_definition_name);
             spreads.iter().find_map(|&spread| {
                 if spread.name() == target.name() {
                     Some(Error::FragmentSpreadCycle {
@@ -41,7 +39,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
                         spreads_by_fragment_definition,
                         target,
                         spread.name(),
-                        &visited_fragment_definitions,
+                        visited_fragment_definitions,
                     )
                 }
             })
@@ -76,7 +74,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
                     &spreads_by_fragment_definition,
                     target,
                     fragment_definition_name,
-                    &HashSet::new(),
+                    &mut HashSet::new(),
                 )
             })
             .collect();
-- 
2.43.0


From 2c7a0ac66ff317fc1b6d72fb07c12949505e48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:52 +0000
Subject: [PATCH 17/38] fix: report redefined builtin scalars, and only at
 places in the document

---
 .../src/ast/definition/definition_document.rs         | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 0421a75..8ae3d65 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -184,12 +184,13 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         }
     }
 
-    /// Inserts builtin scalars only for type names that have not already been parsed
-    /// to allow overriding of builtin scalars
+    /// Inserts builtin scalars only for names that have not already been parsed as a scalar
+    /// to allow overriding of builtin scalars with (only) other scalars
     fn insert_builtin_scalar_definitions(&mut self) {
         let defined_names: HashSet<String> = self
             .type_definitions
             .iter()
+            .filter(|td| matches!(td, TypeDefinition::CustomScalar(_)))
             .map(|td| td.name().to_owned())
             .collect();
 
@@ -493,8 +494,10 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         indexed_directive_definitions: &BTreeMap<&str, &'a DirectiveDefinition<'a, C>>,
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
+        // only what was parsed from the document can be wrong, or be pointed at in it
         indexed_type_definitions
             .values()
+            .filter(|type_definition| !type_definition.as_ref().is_builtin())
             .for_each(|type_definition| match type_definition {
                 TypeDefinition::Object(otd) => {
                     Self::resolve_fields_definition_types_and_directives(
@@ -584,6 +587,7 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
 
         indexed_directive_definitions
             .values()
+            .filter(|directive_definition| !directive_definition.is_builtin())
             .for_each(|directive_definition| {
                 if let Some(arguments_definition) = directive_definition.arguments_definition() {
                     Self::resolve_input_types_and_directives(
@@ -602,7 +606,8 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         fields_definition: &'a FieldsDefinition<'a, C>,
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
-        fields_definition.iter().for_each(|field_definition| {
+        let parsed_fields = fields_definition.iter().filter(|fd| !fd.is_builtin());
+        parsed_fields.for_each(|field_definition| {
             let t = field_definition.r#type().base();
             match indexed_type_definitions.get(t.name().as_ref()) {
                 Some(&td) => match BaseOutputType::core_type_from_type_definition(td) {
-- 
2.43.0


From 119e870e989c70417381087afa4b22c0d3e5eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 18/38] fix: apply the default page size of a connection when
 computing its cost

---
 .../complexity_cost/relay_cost_computer.rs    | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
index a26f66c..f8e058e 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
@@ -97,8 +97,16 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition, V: VariableValues> CostComp
         match kind {
             Some(CONNECTION_COST_KIND) => {
                 let (first_size, last_size) = (
-                    self.extract_field_sizing_argument(field, CONNECTION_FIRST_ARGUMENT),
-                    self.extract_field_sizing_argument(field, CONNECTION_LAST_ARGUMENT),
+                    self.extract_field_sizing_argument(
+                        field_definition,
+                        field,
+                        CONNECTION_FIRST_ARGUMENT,
+                    ),
+                    self.extract_field_sizing_argument(
+                        field_definition,
+                        field,
+                        CONNECTION_LAST_ARGUMENT,
+                    ),
                 );
 
                 let static_size = first_size.into_iter().chain(last_size).max().unwrap_or(0);
@@ -123,20 +131,29 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition, V: VariableValues>
 {
     fn extract_field_sizing_argument(
         &self,
+        field_definition: &<S as SchemaDefinition>::FieldDefinition,
         field: &<E as ExecutableDocument>::Field,
         argument_name: &str,
     ) -> Option<usize> {
-        field
+        let argument = field
             .arguments()
-            .and_then(|arguments| arguments.iter().find(|arg| arg.name() == argument_name))
-            .and_then(|argument| match argument.value().as_ref() {
-                ValueReference::Integer(int) => Some(int.max(0) as usize),
-                ValueReference::Variable(var) => self
-                    .operation_definition
-                    .evaluate_int(var, self.variable_values)
-                    .map(|i| i.max(0) as usize),
-                _ => None,
-            })
+            .and_then(|arguments| arguments.iter().find(|arg| arg.name() == argument_name));
+
+        let size = match argument.map(|argument| argument.value().as_ref()) {
+            Some(ValueReference::Integer(int)) => Some(int),
+            Some(ValueReference::Variable(var)) => self
+                .operation_definition
+                .evaluate_int(var, self.variable_values),
+            Some(_) => None,
+            // the size that applies is the argument's default
+            None => field_definition
+                .arguments_definition()
+                .and_then(|definitions| definitions.get(argument_name))
+                .and_then(|definition| definition.default_value())
+                .and_then(|default_value| default_value.as_ref().as_integer().copied()),
+        };
+
+        size.map(|size| size.max(0) as usize)
     }
 
     fn multiplier_for_static_size(static_size: usize) -> usize {
-- 
2.43.0


From 35eabfe1c9de891b173b0dfe65170339ec2fa93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 19/38] fix: print descriptions that block strings cannot carry
 as quoted strings

---
 bluejay-printer/src/string_value.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..098302e 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -20,6 +20,7 @@ impl<'a> Display for StringValuePrinter<'a> {
             '\n' => write!(f, "\\n"),
             '\r' => write!(f, "\\r"),
             '\t' => write!(f, "\\t"),
+            c if c.is_ascii_control() => write!(f, "\\u{:04X}", u32::from(c)),
             c => write!(f, "{c}"),
         })?;
         write!(f, "\"")
@@ -35,12 +36,36 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Whether a block string can have the value: blank lines at its start or end and indentation
+    /// that all of its lines share are not part of the value of a block string, line terminators
+    /// are normalized, and control characters cannot be escaped.
+    fn is_representable(value: &str) -> bool {
+        fn is_blank(line: &str) -> bool {
+            line.chars().all(|c| matches!(c, ' ' | '\t'))
+        }
+
+        value.is_empty()
+            || (value
+                .chars()
+                .all(|c| matches!(c, '\n' | '\t') || !c.is_ascii_control())
+                && !value.split('\n').next().map_or(true, is_blank)
+                && !value.split('\n').next_back().map_or(true, is_blank)
+                && value
+                    .split('\n')
+                    .any(|line| !is_blank(line) && !line.starts_with([' ', '\t'])))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_representable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From 589531819e22bb83e3941733fc33d42b80ab1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 20/38] fix: print floats close to an integer without losing
 their value

---
 bluejay-printer/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..989e3c3 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -21,7 +21,7 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
             ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
+                if fl.fract() == 0.0 {
                     write!(f, "{fl:.1}")
                 } else {
                     write!(f, "{fl}")
-- 
2.43.0


From 872a7303ff6859cfeca1a08d50e863e8402bfe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 21/38] fix: print the directives of fragment definitions

---
 bluejay-printer/src/executable/fragment_definition.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..e331233 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,9 +21,16 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
+        )?;
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+        write!(
+            f,
+            " {}",
             SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
         )
     }
-- 
2.43.0


From 3b7fc486e73b22218e2c4c3a5457d90052bcf36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 22/38] fix: print the schema definition when an implicit one
 would add root operation types

---
 bluejay-printer/src/definition/schema_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..aa0a753 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,15 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| schema_definition.get_type_definition("Mutation").is_none())
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From 07e5bc2a49cec76253446c66ddf2df510eac403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 23/38] fix: compare the directives of input fields instead of
 those of their type

---
 bluejay-schema-comparator/src/diff/input_field.rs       | 7 ++-----
 bluejay-schema-comparator/src/diff/input_object_type.rs | 1 -
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..2d71c03 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -7,7 +7,6 @@ use bluejay_core::Value;
 
 pub struct InputFieldDiff<'a, S: SchemaDefinition> {
     old_type_definition: &'a S::InputObjectTypeDefinition,
-    new_type_definition: &'a S::InputObjectTypeDefinition,
     old_field_definition: &'a S::InputValueDefinition,
     new_field_definition: &'a S::InputValueDefinition,
 }
@@ -15,13 +14,11 @@ pub struct InputFieldDiff<'a, S: SchemaDefinition> {
 impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
     pub fn new(
         old_type_definition: &'a S::InputObjectTypeDefinition,
-        new_type_definition: &'a S::InputObjectTypeDefinition,
         old_field_definition: &'a S::InputValueDefinition,
         new_field_definition: &'a S::InputValueDefinition,
     ) -> Self {
         Self {
             old_type_definition,
-            new_type_definition,
             old_field_definition,
             new_field_definition,
         }
@@ -79,7 +76,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +86,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
diff --git a/bluejay-schema-comparator/src/diff/input_object_type.rs b/bluejay-schema-comparator/src/diff/input_object_type.rs
index 79e5c46..9cad065 100644
--- a/bluejay-schema-comparator/src/diff/input_object_type.rs
+++ b/bluejay-schema-comparator/src/diff/input_object_type.rs
@@ -74,7 +74,6 @@ impl<'a, S: SchemaDefinition + 'a> InputObjectTypeDiff<'a, S> {
                         changes.extend(
                             InputFieldDiff::new(
                                 self.old_type_definition,
-                                self.new_type_definition,
                                 old_field,
                                 new_field,
                             )
-- 
2.43.0


From 8a313d4e40fbc0c2d2aa22b33d4bb57f85d1e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 24/38] fix: report arguments added to and removed from
 directives without other arguments

---
 bluejay-schema-comparator/src/diff/directive.rs            | 2 +-
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..1bedf3c 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -91,7 +91,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From 021c39c809bf4a7e1fb2be55f1ab48e91cb26462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 25/38] fix: compare the directives of custom scalars and the
 arguments of directives on the schema

---
 bluejay-schema-comparator/src/diff.rs         |  1 +
 .../src/diff/scalar_type.rs                   | 51 +++++++++++++++++++
 bluejay-schema-comparator/src/diff/schema.rs  | 18 +++++--
 3 files changed, 65 insertions(+), 5 deletions(-)
 create mode 100644 bluejay-schema-comparator/src/diff/scalar_type.rs

diff --git a/bluejay-schema-comparator/src/diff.rs b/bluejay-schema-comparator/src/diff.rs
index d0b0a34..77d7945 100644
--- a/bluejay-schema-comparator/src/diff.rs
+++ b/bluejay-schema-comparator/src/diff.rs
@@ -9,6 +9,7 @@ mod input_field;
 mod input_object_type;
 mod interface_type;
 mod object_type;
+mod scalar_type;
 mod schema;
 mod union_type;
 
diff --git a/bluejay-schema-comparator/src/diff/scalar_type.rs b/bluejay-schema-comparator/src/diff/scalar_type.rs
new file mode 100644
index 0000000..bfd10df
--- /dev/null
+++ b/bluejay-schema-comparator/src/diff/scalar_type.rs
@@ -0,0 +1,51 @@
+use crate::changes::Change;
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{DirectiveLocation, ScalarTypeDefinition, SchemaDefinition};
+
+pub struct ScalarTypeDiff<'a, S: SchemaDefinition> {
+    old_type_definition: &'a S::CustomScalarTypeDefinition,
+    new_type_definition: &'a S::CustomScalarTypeDefinition,
+}
+
+impl<'a, S: SchemaDefinition + 'a> ScalarTypeDiff<'a, S> {
+    pub fn new(
+        old_type_definition: &'a S::CustomScalarTypeDefinition,
+        new_type_definition: &'a S::CustomScalarTypeDefinition,
+    ) -> Self {
+        Self {
+            old_type_definition,
+            new_type_definition,
+        }
+    }
+
+    pub fn diff(&self) -> Vec<Change<'a, S>> {
+        let mut changes = Vec::new();
+
+        changes.extend(
+            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_type_definition,
+            self.new_type_definition,
+        ));
+
+        changes
+    }
+}
diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..95ba499 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,10 +1,11 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
 use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
+use crate::diff::scalar_type::ScalarTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
     DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
@@ -82,6 +83,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
@@ -136,11 +142,13 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(ScalarTypeDiff::new(old_type, new_type).diff());
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From 0103d48c34d574ac91b79ea429c8cd707899a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 26/38] fix: compare repeated directives occurrence by
 occurrence

---
 .../src/diff/directive.rs                     | 83 +++++++++++--------
 1 file changed, 48 insertions(+), 35 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index 1bedf3c..b43da1a 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -98,6 +98,42 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
     }
 }
 
+/// The directives of a member, each with the number of directives with the same name before it.
+fn directives_with_occurrence<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    member: &'a T,
+) -> impl Iterator<Item = (&'a <S as SchemaDefinition>::Directive, usize)> {
+    member.directives().into_iter().flat_map(|directives| {
+        directives.iter().enumerate().map(|(idx, directive)| {
+            let occurrence = directives
+                .iter()
+                .take(idx)
+                .filter(|other| other.name() == directive.name())
+                .count();
+            (directive, occurrence)
+        })
+    })
+}
+
+fn find_directive<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    member: &'a T,
+    name: &str,
+    occurrence: usize,
+) -> Option<&'a <S as SchemaDefinition>::Directive> {
+    member
+        .directives()?
+        .iter()
+        .filter(|directive| directive.name() == name)
+        .nth(occurrence)
+}
+
 pub fn directive_additions<
     'a,
     S: SchemaDefinition + 'a,
@@ -106,18 +142,11 @@ pub fn directive_additions<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    new_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|new_directive| {
-            old_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|old_directive| old_directive.name() == new_directive.name())
-            })
+    directives_with_occurrence::<S, T>(new_member)
+        .filter(|(new_directive, occurrence)| {
+            find_directive::<S, T>(old_member, new_directive.name(), *occurrence).is_none()
         })
+        .map(|(new_directive, _)| new_directive)
 }
 
 pub fn directive_removals<
@@ -128,18 +157,11 @@ pub fn directive_removals<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|old_directive| {
-            new_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|new_directive| old_directive.name() == new_directive.name())
-            })
+    directives_with_occurrence::<S, T>(old_member)
+        .filter(|(old_directive, occurrence)| {
+            find_directive::<S, T>(new_member, old_directive.name(), *occurrence).is_none()
         })
+        .map(|(old_directive, _)| old_directive)
 }
 
 pub fn common_directive_changes<
@@ -150,19 +172,10 @@ pub fn common_directive_changes<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = Change<'a, S>> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter_map(move |old_directive| {
-            new_member
-                .directives()
-                .map(|ii| ii.iter())
-                .into_iter()
-                .flatten()
-                .find(|new_directive| old_directive.name() == new_directive.name())
+    directives_with_occurrence::<S, T>(old_member)
+        .filter_map(|(old_directive, occurrence)| {
+            find_directive::<S, T>(new_member, old_directive.name(), occurrence)
                 .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
         })
-        .flat_map(|changes| changes.into_iter())
+        .flatten()
 }
-- 
2.43.0


From 05829f604b6be6a4920dbad5a475aec10abe130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 27/38] fix: removing the default value of a required argument
 or input field is breaking

---
 bluejay-schema-comparator/src/changes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index bcb0507..8ce2ade 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -292,6 +292,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::FieldArgumentDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::FieldArgumentDefaultValueChanged { new_argument_definition: new_argument, .. } if new_argument.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument will cause existing queries that do not provide a value for this argument to error.")))
+            },
             Self::FieldArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -343,6 +346,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::InputFieldDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::InputFieldDefaultValueChanged { new_field_definition: new_field, .. } if new_field.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null input field will cause existing queries that do not provide a value for this field to error.")))
+            },
             Self::InputFieldDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -381,6 +387,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
                     Criticality::breaking(None)
                 }
             },
+            Self::DirectiveDefinitionArgumentDefaultValueChanged { new_argument_definition: new_argument, .. } if new_argument.is_required() => {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument will cause existing queries that do not provide a value for this argument to error.")))
+            },
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
-- 
2.43.0


From 73a545cff5dbd442f9256becb7c5a5f6a1c78ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:35 +0000
Subject: [PATCH 28/38] fix: requiring one of the fields of an input object is
 breaking

---
 bluejay-schema-comparator/src/changes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index 8ce2ade..dfb1919 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -393,6 +393,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
+            Self::DirectiveAdded { location: DirectiveLocation::InputObject, directive, .. } if directive.name() == "oneOf" => {
+                Criticality::breaking(Some(Cow::from("Requiring exactly one field of an existing input type will cause existing queries that provide none or several to error.")))
+            },
             Self::DirectiveAdded { .. } => {
                 Criticality::safe(None)
             },
-- 
2.43.0


From 5af75ac9b94079e28c84902b03e4ea1e600372f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 29/38] fix: expand each fragment once, and compare each group
 of fields once, when checking whether fields merge

---
 .../document/rules/field_selection_merging.rs | 49 +++++++++++++++----
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index c592705..cfa3864 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -70,13 +70,20 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         selection_set: &'a E::SelectionSet,
     ) -> Vec<Error<'a, E, S>> {
         let mut errors = Vec::new();
+        let mut compared_shapes = HashSet::new();
+        let mut compared_parents = HashSet::new();
 
         grouped_fields.values().for_each(|fields_for_name| {
-            errors.append(&mut self.same_response_shape(fields_for_name, selection_set));
-            errors.append(
-                &mut self
-                    .same_for_common_parents_by_name(fields_for_name.as_slice(), selection_set),
-            );
+            errors.append(&mut self.same_response_shape(
+                fields_for_name,
+                selection_set,
+                &mut compared_shapes,
+            ));
+            errors.append(&mut self.same_for_common_parents_by_name(
+                fields_for_name.as_slice(),
+                selection_set,
+                &mut compared_parents,
+            ));
         });
 
         errors
@@ -86,8 +93,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         fields_for_name: &[FieldContext<'a, E, S>],
         selection_set: &'a E::SelectionSet,
+        compared: &mut ComparedFields<E>,
     ) -> Vec<Error<'a, E, S>> {
-        if fields_for_name.len() <= 1 {
+        if fields_for_name.len() <= 1 || !compared.insert(Self::field_pointers(fields_for_name)) {
             return Vec::new();
         }
 
@@ -124,7 +132,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                 nested_grouped_fields
                     .values()
                     .flat_map(|nested_fields_for_name| {
-                        self.same_response_shape(nested_fields_for_name, selection_set)
+                        self.same_response_shape(nested_fields_for_name, selection_set, compared)
                     })
                     .collect()
             })
@@ -134,8 +142,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         &mut self,
         fields_for_name: &[FieldContext<'a, E, S>],
         selection_set: &'a E::SelectionSet,
+        compared: &mut ComparedFields<E>,
     ) -> Vec<Error<'a, E, S>> {
-        if fields_for_name.len() <= 1 {
+        if fields_for_name.len() <= 1 || !compared.insert(Self::field_pointers(fields_for_name)) {
             return Vec::new();
         }
 
@@ -215,6 +224,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                 self.same_for_common_parents_by_name(
                                     nested_fields_for_name.as_slice(),
                                     selection_set,
+                                    compared,
                                 )
                             })
                             .collect()
@@ -223,6 +233,16 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             .collect()
     }
 
+    /// Identifies a group of fields, so that fields that are reached in several ways are compared once
+    fn field_pointers(fields: &[FieldContext<'a, E, S>]) -> Vec<*const E::Field> {
+        let mut pointers: Vec<_> = fields
+            .iter()
+            .map(|field_context| field_context.field as *const E::Field)
+            .collect();
+        pointers.sort_unstable();
+        pointers
+    }
+
     fn selection_set_contained_fields(
         &mut self,
         selection_set: &'a E::SelectionSet,
@@ -234,6 +254,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             &mut fields,
             parent_type,
             &HashSet::new(),
+            &mut HashSet::new(),
         );
         fields
     }
@@ -246,6 +267,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         'a: 'b,
     {
         let mut fields = BTreeMap::new();
+        let mut visited_fragments = HashSet::new();
         field_contexts.for_each(|field_context| {
             if let Some(selection_set) = field_context.field.selection_set() {
                 if let Some(parent_type) = self
@@ -258,6 +280,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             &mut fields,
                             parent_type,
                             &field_context.parent_fragments,
+                            &mut visited_fragments,
                         );
                     }
                 }
@@ -272,6 +295,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         fields: &mut BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
         parent_fragments: &HashSet<&'a str>,
+        visited_fragments: &mut HashSet<&'a str>,
     ) {
         selections.for_each(|selection| match selection.as_ref() {
             SelectionReference::Field(field) => {
@@ -292,7 +316,10 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             }
             SelectionReference::FragmentSpread(fs) => {
                 let fragment_name = fs.name();
-                if !parent_fragments.contains(fragment_name) {
+                // the fields of a fragment are the same wherever it is spread
+                if !parent_fragments.contains(fragment_name)
+                    && visited_fragments.insert(fragment_name)
+                {
                     if let Some(fragment_definition) = self.cache.fragment_definition(fragment_name)
                     {
                         let type_condition = fragment_definition.type_condition();
@@ -311,6 +338,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                     fields,
                                     scoped_type,
                                     &new_parent_fragments,
+                                    visited_fragments,
                                 );
                             }
                         }
@@ -331,6 +359,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             fields,
                             scoped_type,
                             parent_fragments,
+                            visited_fragments,
                         );
                     }
                 }
@@ -378,6 +407,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> Rule<'a, E, S>
     }
 }
 
+type ComparedFields<E> = HashSet<Vec<*const <E as ExecutableDocument>::Field>>;
+
 struct FieldContext<'a, E: ExecutableDocument, S: SchemaDefinition> {
     field: &'a E::Field,
     field_definition: &'a S::FieldDefinition,
-- 
2.43.0


From cc60e59116ce783035ab596e6263547bfe482698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 30/38] fix: compute the cost of each group of scopes once

---
 .../operation/analyzers/complexity_cost.rs    | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index 50f3b5b..220b04b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -189,13 +189,21 @@ impl<
             .flatten()
             .and_then(|index| self.scopes_arena.get(index))
             .unwrap();
-        self.merged_max_complexity_for_scopes(&[root_scope])
+        self.merged_max_complexity_for_scopes(&[root_scope], &mut HashMap::new())
     }
 
     fn merged_max_complexity_for_scopes(
         &self,
         scopes: &[&ComplexityScope<'a, S::TypeDefinition, C::FieldMultipliers>],
+        costs: &mut ScopesCosts<'a, S, C::FieldMultipliers>,
     ) -> usize {
+        // the same scopes are reached once for every possible type they were selected on
+        let key: Vec<_> = scopes.iter().map(|scope| *scope as *const _).collect();
+
+        if let Some(cost) = costs.get(&key) {
+            return *cost;
+        }
+
         // build a set of all unique possible type definitions
         // with abstract types expanded to encompass all of their possible types
         let possible_type_names = scopes
@@ -211,7 +219,7 @@ impl<
             .unique();
 
         // calculate a maximum possible cost among possible types
-        possible_type_names
+        let cost = possible_type_names
             .map(|possible_type_name| {
                 // collect inner selections from all scopes that intersect with this possible type
                 let inner_selections = scopes
@@ -228,15 +236,20 @@ impl<
                     })
                     .collect::<Vec<_>>();
 
-                self.merged_max_complexity_for_selections(inner_selections)
+                self.merged_max_complexity_for_selections(inner_selections, costs)
             })
             .max()
-            .unwrap_or(0)
+            .unwrap_or(0);
+
+        costs.insert(key, cost);
+
+        cost
     }
 
     fn merged_max_complexity_for_selections(
         &self,
         inner_selections: Vec<&InnerSelection<'a>>,
+        costs: &mut ScopesCosts<'a, S, C::FieldMultipliers>,
     ) -> usize {
         // build a unique set of field keys from across inner selections.
         // the same field keys may appear in selections on different types,
@@ -275,7 +288,7 @@ impl<
                     })
                     .collect::<Vec<&ComplexityScope<'a, S::TypeDefinition, C::FieldMultipliers>>>();
 
-                let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
+                let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes, costs);
 
                 base_cost
                     .saturating_add(children_cost)
@@ -307,6 +320,9 @@ impl<
 
 type InnerSelection<'a> = HashMap<&'a str, NodeId>;
 
+type ScopesCosts<'a, S, F> =
+    HashMap<Vec<*const ComplexityScope<'a, <S as SchemaDefinition>::TypeDefinition, F>>, usize>;
+
 struct TypedSelection<'a, T: TypeDefinition> {
     type_definition: TypeDefinitionReference<'a, T>,
     inner_selection: InnerSelection<'a>,
-- 
2.43.0


From 946e970a1cf9f23134f3e6dfd3a4f1084f8e864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 31/38] fix: leave fragments that spread themselves out when
 checking whether fields merge

---
 .../document/rules/field_selection_merging.rs | 54 +++++++++++++------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index cfa3864..b4c1e49 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -11,13 +11,14 @@ use bluejay_core::executable::{
     SelectionReference,
 };
 use bluejay_core::{Arguments, AsIter, Indexed};
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::ops::Not;
 
 pub struct FieldSelectionMerging<'a, E: ExecutableDocument, S: SchemaDefinition> {
     cache: &'a Cache<'a, E, S>,
     schema_definition: &'a S,
     cached_errors: BTreeMap<Indexed<'a, E::SelectionSet>, Vec<Error<'a, E, S>>>,
+    cached_spreads_itself: HashMap<&'a str, bool>,
 }
 
 impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition> Visitor<'a, E, S>
@@ -28,6 +29,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition> Visitor<'a, E, S>
             cache,
             schema_definition,
             cached_errors: BTreeMap::new(),
+            cached_spreads_itself: HashMap::new(),
         }
     }
 
@@ -253,7 +255,6 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             selection_set.iter(),
             &mut fields,
             parent_type,
-            &HashSet::new(),
             &mut HashSet::new(),
         );
         fields
@@ -279,7 +280,6 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             selection_set.iter(),
                             &mut fields,
                             parent_type,
-                            &field_context.parent_fragments,
                             &mut visited_fragments,
                         );
                     }
@@ -294,7 +294,6 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         selections: impl Iterator<Item = &'a E::Selection>,
         fields: &mut BTreeMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
-        parent_fragments: &HashSet<&'a str>,
         visited_fragments: &mut HashSet<&'a str>,
     ) {
         selections.for_each(|selection| match selection.as_ref() {
@@ -310,17 +309,17 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             field,
                             field_definition,
                             parent_type,
-                            parent_fragments: parent_fragments.to_owned(),
                         });
                 }
             }
             SelectionReference::FragmentSpread(fs) => {
                 let fragment_name = fs.name();
                 // the fields of a fragment are the same wherever it is spread
-                if !parent_fragments.contains(fragment_name)
-                    && visited_fragments.insert(fragment_name)
-                {
-                    if let Some(fragment_definition) = self.cache.fragment_definition(fragment_name)
+                if visited_fragments.insert(fragment_name) {
+                    if let Some(fragment_definition) = self
+                        .cache
+                        .fragment_definition(fragment_name)
+                        .filter(|fragment_definition| !self.spreads_itself(fragment_definition))
                     {
                         let type_condition = fragment_definition.type_condition();
                         if let Some(scoped_type) =
@@ -330,14 +329,10 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                 fragment_definition.selection_set(),
                                 scoped_type,
                             ) {
-                                let mut new_parent_fragments = HashSet::new();
-                                new_parent_fragments.clone_from(parent_fragments);
-                                new_parent_fragments.insert(fragment_name);
                                 self.visit_selections_for_fields(
                                     fragment_definition.selection_set().iter(),
                                     fields,
                                     scoped_type,
-                                    &new_parent_fragments,
                                     visited_fragments,
                                 );
                             }
@@ -358,7 +353,6 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             i.selection_set().iter(),
                             fields,
                             scoped_type,
-                            parent_fragments,
                             visited_fragments,
                         );
                     }
@@ -367,6 +361,37 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         });
     }
 
+    /// The fields of a fragment that spreads itself would be endless, it is reported by another rule
+    fn spreads_itself(&mut self, fragment_definition: &'a E::FragmentDefinition) -> bool {
+        let fragment_name = fragment_definition.name();
+        if let Some(spreads_itself) = self.cached_spreads_itself.get(fragment_name) {
+            return *spreads_itself;
+        }
+        let mut spread_fragments = HashSet::new();
+        let mut selection_sets = vec![fragment_definition.selection_set()];
+        while let Some(selection_set) = selection_sets.pop() {
+            selection_set
+                .iter()
+                .for_each(|selection| match selection.as_ref() {
+                    SelectionReference::Field(f) => selection_sets.extend(f.selection_set()),
+                    SelectionReference::InlineFragment(i) => selection_sets.push(i.selection_set()),
+                    SelectionReference::FragmentSpread(fs) => {
+                        if spread_fragments.insert(fs.name()) {
+                            selection_sets.extend(
+                                self.cache
+                                    .fragment_definition(fs.name())
+                                    .map(FragmentDefinition::selection_set),
+                            );
+                        }
+                    }
+                });
+        }
+        let spreads_itself = spread_fragments.contains(fragment_name);
+        self.cached_spreads_itself
+            .insert(fragment_name, spreads_itself);
+        spreads_itself
+    }
+
     fn same_output_type_shape(
         schema_definition: &S,
         type_a: &S::OutputType,
@@ -413,5 +438,4 @@ struct FieldContext<'a, E: ExecutableDocument, S: SchemaDefinition> {
     field: &'a E::Field,
     field_definition: &'a S::FieldDefinition,
     parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
-    parent_fragments: HashSet<&'a str>,
 }
-- 
2.43.0


From bb2b1a53c4dacb5a070fe4ff64bb45d727d21fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 32/38] fix: generate a type for definitions that consist of a
 fragment spread

---
 .../executable_field_builder.rs               |  3 +-
 .../executable_type_builder.rs                | 12 +++++
 .../intermediate_representation.rs            | 49 ++++++++++++++++---
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
index a979225..812d7ba 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
@@ -110,7 +110,8 @@ impl<'a, S: SchemaDefinition> ExecutableFieldBuilder<'a, S> {
                 ExecutableType::BuiltinScalar { bstd, .. } => {
                     builtin_scalar_type(*bstd, self.config)
                 }
-                ExecutableType::FragmentDefinitionReference { name, borrows } => {
+                ExecutableType::FragmentDefinitionReference { name, borrows }
+                | ExecutableType::Alias { name, borrows, .. } => {
                     let prefix = self.prefix_for_executable_document_module();
                     let type_ident = type_ident(name);
                     let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
index 49b55d7..5ab7c99 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
@@ -1,8 +1,10 @@
 use crate::{
     executable_definition::{ExecutableEnumBuilder, ExecutableStructBuilder, ExecutableType},
+    names::type_ident,
     Config,
 };
 use bluejay_core::definition::SchemaDefinition;
+use syn::parse_quote;
 
 pub(crate) struct ExecutableTypeBuilder;
 
@@ -15,6 +17,16 @@ impl ExecutableTypeBuilder {
         match executable_type {
             ExecutableType::Struct(es) => ExecutableStructBuilder::build(es, config, depth),
             ExecutableType::Enum(ee) => ExecutableEnumBuilder::build(ee, config, depth),
+            ExecutableType::Alias {
+                name,
+                fragment_name,
+                borrows,
+            } => {
+                let name_ident = type_ident(name);
+                let fragment_ident = type_ident(fragment_name);
+                let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
+                vec![parse_quote! { pub type #name_ident #lifetime = #fragment_ident #lifetime; }]
+            }
             ExecutableType::FragmentDefinitionReference { .. }
             | ExecutableType::Leaf { .. }
             | ExecutableType::BuiltinScalar { .. } => Vec::new(),
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index e5e9168..5f8ce84 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -24,6 +24,14 @@ pub(crate) enum ExecutableType<'a> {
     /// Note: the `borrows` field may incorrectly be false during construction, but
     /// will be updated later
     FragmentDefinitionReference { name: &'a str, borrows: bool },
+    /// An operation or fragment definition whose selection set contains only a single named fragment spread
+    /// Note: the `borrows` field may incorrectly be false during construction, but
+    /// will be updated later
+    Alias {
+        name: &'a str,
+        fragment_name: &'a str,
+        borrows: bool,
+    },
     BuiltinScalar {
         bstd: BuiltinScalarDefinition,
         borrows: bool,
@@ -67,7 +75,12 @@ impl<'a> ExecutableType<'a> {
                     });
                 });
             }
-            Self::FragmentDefinitionReference { name, borrows } => {
+            Self::FragmentDefinitionReference { name, borrows }
+            | Self::Alias {
+                fragment_name: name,
+                borrows,
+                ..
+            } => {
                 *borrows = fragment_definitions_contains_reference_types[name];
             }
             Self::Leaf { .. } | Self::BuiltinScalar { .. } => {}
@@ -79,6 +92,7 @@ impl<'a> ExecutableType<'a> {
             Self::Leaf { borrows, .. } => *borrows,
             Self::BuiltinScalar { borrows, .. } => *borrows,
             Self::FragmentDefinitionReference { borrows, .. } => *borrows,
+            Self::Alias { borrows, .. } => *borrows,
             Self::Struct(es) => es.borrows(),
             Self::Enum(ee) => ee.borrows(),
         }
@@ -227,12 +241,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                 .subscription()
                 .expect("Unsupported operation type used"),
         };
-        self.build_base_type(
+        self.build_definition(
             operation_definition
                 .as_ref()
                 .name()
                 .unwrap_or(ANONYMOUS_OPERATION_STRUCT_NAME),
-            Some(operation_definition.as_ref().selection_set()),
+            operation_definition.as_ref().selection_set(),
             BaseOutputTypeReference::Object(object_type_definition),
         )
     }
@@ -246,15 +260,34 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
             .schema_definition()
             .get_type_definition(fragment_definition.type_condition())
             .expect("Fragment type condition not found");
-        self.build_base_type(
+        self.build_definition(
             fragment_definition.name(),
-            Some(fragment_definition.selection_set()),
+            fragment_definition.selection_set(),
             target_type
                 .try_into()
                 .expect("Fragment type not an output type"),
         )
     }
 
+    fn build_definition(
+        &self,
+        name: &'a str,
+        selection_set: &'a E::SelectionSet,
+        base_output_type: BaseOutputTypeReference<'a, S::OutputType>,
+    ) -> ExecutableType<'a> {
+        match self.build_base_type(name, Some(selection_set), base_output_type) {
+            ExecutableType::FragmentDefinitionReference {
+                name: fragment_name,
+                borrows,
+            } => ExecutableType::Alias {
+                name,
+                fragment_name,
+                borrows,
+            },
+            executable_type => executable_type,
+        }
+    }
+
     fn fields_or_fragment_spread(
         &self,
         selection_set: &'a E::SelectionSet,
@@ -510,7 +543,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                     )
                 })
             }),
-            ExecutableType::FragmentDefinitionReference { name, .. } => {
+            ExecutableType::FragmentDefinitionReference { name, .. }
+            | ExecutableType::Alias {
+                fragment_name: name,
+                ..
+            } => {
                 // cannot rely on the `borrows` value in the `FragmentDefinitionReference` yet
                 if visited_fragment_definitions.insert(name) {
                     Self::type_borrows(
-- 
2.43.0


From 1ae42faae07a3d2959a4af4a16f5c5f10d7c2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 33/38] fix: leave __typename out of the fields of a union
 member

---
 .../executable_definition/intermediate_representation.rs  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index 5f8ce84..cfb5f80 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -493,15 +493,17 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                                     fields: inline_fragment
                                         .selection_set()
                                         .iter()
-                                        .map(|selection| match selection.as_ref() {
+                                        .filter_map(|selection| match selection.as_ref() {
+                                            // it is the tag of the enum, and cannot be a field of the variant as well
+                                            SelectionReference::Field(field) if field.response_name() == "__typename" => None,
                                             SelectionReference::Field(field) => {
-                                                self.build_field(
+                                                Some(self.build_field(
                                                     field,
                                                     target_type
                                                         .fields_definition()
                                                         .get(field.name())
                                                         .expect("Field not found"),
-                                                )
+                                                ))
                                             }
                                             SelectionReference::InlineFragment(_)
                                             | SelectionReference::FragmentSpread(_) => {
-- 
2.43.0


From 49c6108c823c0480d4c210728832f7e58cc5dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 34/38] fix: omit required input fields with a default value
 that have none

---
 .../src/input_object_type_definition.rs       | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/bluejay-typegen-macro/src/input_object_type_definition.rs b/bluejay-typegen-macro/src/input_object_type_definition.rs
index 2ba045a..aee2010 100644
--- a/bluejay-typegen-macro/src/input_object_type_definition.rs
+++ b/bluejay-typegen-macro/src/input_object_type_definition.rs
@@ -77,6 +77,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
         let field_type_paths = self.field_type_paths();
         let field_serde_rename_attributes = self.field_serde_rename_attributes();
         let field_serde_borrow_attributes = self.field_serde_borrow_attributes();
+        let field_serde_skip_attributes = self.field_serde_skip_attributes();
         let lifetime = self.lifetime(self.input_object_type_definition);
 
         let mut items = vec![parse_quote! {
@@ -86,6 +87,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                     #field_description_attributes
                     #field_serde_rename_attributes
                     #field_serde_borrow_attributes
+                    #field_serde_skip_attributes
                     pub #field_idents: #field_type_paths,
                 )*
             }
@@ -207,6 +209,23 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             .collect()
     }
 
+    /// Required fields with a default value are omitted when there is no value, because `null` is not accepted for them
+    fn omit_when_none(ivd: &S::InputValueDefinition) -> bool {
+        ivd.r#type().is_required() && ivd.default_value().is_some()
+    }
+
+    fn field_serde_skip_attributes(&self) -> Vec<Option<syn::Attribute>> {
+        self.input_object_type_definition
+            .input_field_definitions()
+            .iter()
+            .map(|ivd| {
+                (self.config.codec() == Codec::Serde && Self::omit_when_none(ivd)).then(
+                    || parse_quote!(#[serde(skip_serializing_if = "::std::option::Option::is_none")]),
+                )
+            })
+            .collect()
+    }
+
     fn lifetime(
         &self,
         input_object_type_definition: &'a S::InputObjectTypeDefinition,
@@ -404,6 +423,17 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             let field_idents = self.field_idents();
             let serialized_as = self.field_serialized_as();
             let states = (0..self.field_idents().len()).collect::<Vec<_>>();
+            let skip_arms = self
+                .input_object_type_definition
+                .input_field_definitions()
+                .iter()
+                .enumerate()
+                .filter(|(_, ivd)| Self::omit_when_none(ivd))
+                .map(|(state, ivd)| {
+                    let field_ident = field_ident(ivd.name());
+                    parse_quote! { #state if self.data.#field_ident.is_none() => self.next() }
+                })
+                .collect::<Vec<syn::Arm>>();
 
             parse_quote! {
                 const _: () = {
@@ -417,6 +447,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                             let state = self.state;
                             self.state += 1;
                             match state {
+                                #(#skip_arms,)*
                                 #(
                                     #states => ::std::option::Option::Some((
                                         ::std::borrow::Cow::Borrowed(#serialized_as),
-- 
2.43.0


From 908c4b04f396e26b4b20dd4ec312a54746085bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:28 +0000
Subject: [PATCH 35/38] fix: let fields be called like what the generated
 miniserde implementations use

---
 .../executable_definition/executable_enum_builder.rs   | 10 +++++-----
 .../executable_definition/executable_struct_builder.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index 5cf04a6..f59d15c 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -135,8 +135,8 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
     fn miniserde_deserialize_impl(&self) -> Option<syn::Item> {
         (self.config.codec() == Codec::Miniserde).then(|| {
             let name_ident = self.name_ident();
-            let builder_ident = format_ident!("{}Builder", name_ident);
-            let builder_state_ident = format_ident!("{}BuilderState", name_ident);
+            let builder_ident = format_ident!("__{}Builder", name_ident);
+            let builder_state_ident = format_ident!("__{}BuilderState", name_ident);
 
             let variant_builders = self.variant_builders();
 
@@ -204,7 +204,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #builder_state_ident::#variant_ident { #(#field_idents,)* } => {
-                            match k {
+                            match __k {
                                 #(#field_serialized_as => ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(#field_idents)),)*
                                 _ => ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
                             }
@@ -283,12 +283,12 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
-                        fn key(&mut self, k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
+                        fn key(&mut self, __k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
                             if let ::std::option::Option::Some(ref mut state) = self.state {
                                 match state {
                                     #(#state_key_arm,)*
                                 }
-                            } else if k == "__typename" {
+                            } else if __k == "__typename" {
                                 ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(&mut self.state))
                             } else {
                                 ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 0d4b231..1759035 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -114,7 +114,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
     fn miniserde_deserialize_impl(&self) -> Option<syn::Item> {
         (self.config.codec() == Codec::Miniserde).then(|| {
             let name_ident = self.name_ident();
-            let builder_ident = format_ident!("{}Builder", name_ident);
+            let builder_ident = format_ident!("__{}Builder", name_ident);
 
             let field_builders = self.field_builders();
 
@@ -140,7 +140,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                     struct #builder_ident<'a> {
                         #(#builder_fields,)*
-                        out: &'a mut ::std::option::Option<#name_ident>,
+                        __out: &'a mut ::std::option::Option<#name_ident>,
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
@@ -153,7 +153,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                         fn finish(&mut self) -> ::bluejay_typegen::miniserde::Result<()> {
                             #(let #field_idents = self.#field_idents.take().ok_or(::bluejay_typegen::miniserde::Error)?;)*
-                            *self.out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
+                            *self.__out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
                             ::std::result::Result::Ok(())
                         }
                     }
@@ -162,7 +162,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
                                 #(#field_idents: ::std::option::Option::None,)*
-                                out: &mut self.out,
+                                __out: &mut self.out,
                             }))
                         }
                     }
-- 
2.43.0


From 24095f13617319b1bb576532a5b29e023de9dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:04 +0000
Subject: [PATCH 36/38] fix: reject fragment spreads on unions that do not
 apply to every member

---
 bluejay-typegen-macro/src/validation/error.rs | 11 +++++
 .../src/validation/selections_are_valid.rs    | 47 +++++++++++++++++--
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index 57d5634..b52f79d 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -37,6 +37,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnInterfaceInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadOnUnionInvalidTarget {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -127,6 +130,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires fragment spreads on unions to target a type that all members of the union are"),
+                Some(Annotation::new(
+                    "Fragment spread on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index cb7d7e3..f8e760e 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -1,8 +1,8 @@
 use crate::validation::Error;
 use bluejay_core::{
     definition::{
-        InterfaceImplementation, InterfaceTypeDefinition, SchemaDefinition,
-        TypeDefinitionReference, UnionMemberTypes, UnionTypeDefinition,
+        InterfaceImplementation, InterfaceTypeDefinition, ObjectTypeDefinition, SchemaDefinition,
+        TypeDefinitionReference, UnionMemberType, UnionMemberTypes, UnionTypeDefinition,
     },
     executable::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment, Selection,
@@ -18,15 +18,17 @@ use itertools::{Either, Itertools};
 
 pub(crate) struct SelectionsAreValid<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> {
     errors: Vec<Error<'a, E, S>>,
+    schema_definition: &'a S,
     cache: &'a Cache<'a, E, S>,
 }
 
 impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
     for SelectionsAreValid<'a, E, S>
 {
-    fn new(_: &'a E, _: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
+    fn new(_: &'a E, schema_definition: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
         Self {
             errors: Vec::new(),
+            schema_definition,
             cache,
         }
     }
@@ -148,7 +150,13 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         union_type_definition: &'a S::UnionTypeDefinition,
     ) {
         match self.isolated_fragment_spread(selection_set) {
-            Ok(Some(_)) => {
+            Ok(Some(fragment_spread)) => {
+                // As for interfaces, the generated type assumes that the fragment spread is always present,
+                // so the fragment must apply to every member of the union.
+                if !self.fragment_applies_to_all_members(fragment_spread, union_type_definition) {
+                    self.errors
+                        .push(Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread });
+                }
                 return;
             }
             Ok(None) => {}
@@ -212,6 +220,37 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         );
     }
 
+    fn fragment_applies_to_all_members(
+        &self,
+        fragment_spread: &'a E::FragmentSpread,
+        union_type_definition: &'a S::UnionTypeDefinition,
+    ) -> bool {
+        let type_condition = self
+            .cache
+            .fragment_definition(fragment_spread.name())
+            .unwrap()
+            .type_condition();
+        let target = self.schema_definition.get_type_definition(type_condition);
+        union_type_definition
+            .union_member_types()
+            .iter()
+            .all(|member| match target {
+                Some(TypeDefinitionReference::Object(_)) => member.name() == type_condition,
+                Some(TypeDefinitionReference::Interface(itd)) => member
+                    .member_type(self.schema_definition)
+                    .interface_implementations()
+                    .is_some_and(|interface_implementations| {
+                        interface_implementations
+                            .iter()
+                            .any(|implementation| implementation.name() == itd.name())
+                    }),
+                Some(TypeDefinitionReference::Union(utd)) => {
+                    utd.union_member_types().contains_type(member.name())
+                }
+                _ => false,
+            })
+    }
+
     /// Returns a 2-tuple
     /// - first element: an option including a field if that field is the first selection in the set and is named `__typename` without an alias
     /// - second element: a vector of all other fields in the selection set
-- 
2.43.0


From 3afd89c5b134c94a1cb2b976d01b61d073ee215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:35 +0000
Subject: [PATCH 37/38] fix: size connections by the schema default when the
 paging variable is absent

---
 .../complexity_cost/relay_cost_computer.rs    | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
index f8e058e..b726157 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost/relay_cost_computer.rs
@@ -3,8 +3,10 @@ use crate::executable::operation::{
     OperationDefinitionValueEvaluationExt, VariableValues,
 };
 use bluejay_core::definition::{prelude::*, SchemaDefinition};
-use bluejay_core::executable::{ExecutableDocument, Field};
-use bluejay_core::{Argument, AsIter, Directive, Value, ValueReference};
+use bluejay_core::executable::{
+    ExecutableDocument, Field, OperationDefinition, VariableDefinition,
+};
+use bluejay_core::{Argument, AsIter, Directive, Value, ValueReference, Variable};
 use std::marker::PhantomData;
 
 const CONNECTION_COST_KIND: &str = "connection";
@@ -141,21 +143,38 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition, V: VariableValues>
 
         let size = match argument.map(|argument| argument.value().as_ref()) {
             Some(ValueReference::Integer(int)) => Some(int),
-            Some(ValueReference::Variable(var)) => self
+            Some(ValueReference::Variable(var)) if self.has_value(var) => self
                 .operation_definition
                 .evaluate_int(var, self.variable_values),
-            Some(_) => None,
             // the size that applies is the argument's default
-            None => field_definition
+            Some(ValueReference::Variable(_)) | None => field_definition
                 .arguments_definition()
                 .and_then(|definitions| definitions.get(argument_name))
                 .and_then(|definition| definition.default_value())
                 .and_then(|default_value| default_value.as_ref().as_integer().copied()),
+            Some(_) => None,
         };
 
         size.map(|size| size.max(0) as usize)
     }
 
+    /// whether a value for the variable is provided, or else defined as its default
+    fn has_value(&self, variable: &impl Variable) -> bool {
+        self.variable_values
+            .iter()
+            .any(|(name, _)| name.as_ref() == variable.name())
+            || self
+                .operation_definition
+                .as_ref()
+                .variable_definitions()
+                .is_some_and(|variable_definitions| {
+                    variable_definitions.iter().any(|variable_definition| {
+                        variable_definition.variable() == variable.name()
+                            && variable_definition.default_value().is_some()
+                    })
+                })
+    }
+
     fn multiplier_for_static_size(static_size: usize) -> usize {
         if static_size > 0 {
             // floor(2 * ln(max(2, static_size)))
-- 
2.43.0


From 835590ae3bc5e381fda572558bec7e7a570d59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 38/38] fix: report the start of an empty source as line 1,
 column 1

GraphQL error locations are one-based; a part of a document parsed from an
empty source (VariableValue::parse("")) was located at 0:0.
---
 bluejay-parser/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 190ca7d..f2ed223 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -59,7 +59,7 @@ impl Error {
                     let (line, col) = converter
                         .borrow_mut()
                         .convert(primary_annotation.span())
-                        .unwrap_or((0, 0));
+                        .unwrap_or((1, 1));
                     Either::Left(std::iter::once(GraphQLError {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
@@ -75,7 +75,7 @@ impl Error {
                             let (line, col) = converter
                                 .borrow_mut()
                                 .convert(secondary_annotation.span())
-                                .unwrap_or((0, 0));
+                                .unwrap_or((1, 1));
                             GraphQLError {
                                 message: secondary_annotation.message,
                                 locations: vec![Location { line, col }],
-- 
2.43.0

