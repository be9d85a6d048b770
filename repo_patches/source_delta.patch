From 4b6085812293c264eef29a4c738791046baede2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 01/49] fix: return an error instead of panicking when a parse
 fails mid-rule

RuleIter asserted in Drop that every pair had been consumed, so any early
return with an error (for example an unknown function in a Filter condition)
panicked in the caller of the public parse API.
---
 src/parser/common.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..47d0312 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,19 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
+/// An iterator over the pairs of a grammar rule. A successful parse ends with
+/// [`RuleIter::done`], which asserts that nothing was left unconsumed; a parse
+/// that returns early with an error simply drops the iterator.
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -286,7 +284,6 @@ impl<'a> RuleIter<'a> {
     }
 
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +295,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
-- 
2.43.0


From 76aaa2e98f21cff649c58c46acacec6a3d283841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:10 +0000
Subject: [PATCH 02/49] fix: reject out-of-range numbers and trailing
 declaration text instead of panicking

A field index, anchor, integer literal or extension argument that does not fit
its type, and leftover text after an extension declaration, hit an unwrap or an
assert in the public parse API.
---
 src/parser/common.rs      | 20 +++++++++++
 src/parser/expressions.rs | 66 ++++++++++++++---------------------
 src/parser/extensions.rs  | 73 ++++++++++++++++++++-------------------
 src/parser/mod.rs         |  2 +-
 src/parser/relations.rs   | 42 +++++++++++++---------
 src/parser/types.rs       | 10 +++---
 6 files changed, 115 insertions(+), 98 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 47d0312..ecdec5d 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use std::fmt;
+use std::str::FromStr;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -87,6 +88,24 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Parse the text of a pair as a number, reporting a value that does not fit
+/// `T` as an error. The grammar accepts any run of digits.
+pub(crate) fn parse_number<T: FromStr>(
+    message: &'static str,
+    pair: &Pair<Rule>,
+) -> Result<T, MessageParseError>
+where
+    T::Err: fmt::Display,
+{
+    pair.as_str().parse().map_err(|e| {
+        MessageParseError::invalid(
+            message,
+            pair.as_span(),
+            format!("Invalid number {:?}: {e}", pair.as_str()),
+        )
+    })
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -155,6 +174,7 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
+#[cfg_attr(not(test), allow(dead_code))] // `message` and `parse_str` serve the tests
 pub(crate) trait ParsePair: Sized {
     // The rule that this type is parsed from.
     fn rule() -> Rule;
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..3fba550 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -23,7 +23,7 @@ use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
 use super::types::get_and_validate_anchor;
 use super::{
-    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
+    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_number,
     unescape_string, unwrap_single_pair,
 };
 use crate::extensions::SimpleExtensions;
@@ -35,6 +35,13 @@ use crate::precision::SupportedPrecision;
 pub struct FieldIndex(pub i32);
 
 impl FieldIndex {
+    /// Parse a `$N` reference; an index that does not fit an `i32` is an error.
+    pub(crate) fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
+        assert_eq!(pair.as_rule(), Rule::reference);
+        let inner = unwrap_single_pair(pair);
+        Ok(FieldIndex(parse_number("FieldIndex", &inner)?))
+    }
+
     /// Convert this field index to a FieldReference for use in expressions.
     pub fn to_field_reference(self) -> FieldReference {
         // XXX: Why is it so many layers to make a struct field reference? This is
@@ -53,23 +60,6 @@ impl FieldIndex {
     }
 }
 
-impl ParsePair for FieldIndex {
-    fn rule() -> Rule {
-        Rule::reference
-    }
-
-    fn message() -> &'static str {
-        "FieldIndex"
-    }
-
-    fn parse_pair(pair: Pair<Rule>) -> Self {
-        assert_eq!(pair.as_rule(), Self::rule());
-        let inner = unwrap_single_pair(pair);
-        let index: i32 = inner.as_str().parse().unwrap();
-        FieldIndex(index)
-    }
-}
-
 impl ParsePair for FieldReference {
     fn rule() -> Rule {
         Rule::reference
@@ -83,7 +73,9 @@ impl ParsePair for FieldReference {
         assert_eq!(pair.as_rule(), Self::rule());
 
         // TODO: Other types of references.
-        FieldIndex::parse_pair(pair).to_field_reference()
+        FieldIndex::try_parse_pair(pair)
+            .expect("field index out of range")
+            .to_field_reference()
     }
 }
 
@@ -94,7 +86,7 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = value.as_str().parse().unwrap();
+    let parsed_value: i64 = parse_number("int_literal", &value)?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -738,17 +730,9 @@ struct FunctionReference {
     anchor: Option<u32>,
 }
 
-impl ParsePair for FunctionReference {
-    fn rule() -> Rule {
-        Rule::function_reference
-    }
-
-    fn message() -> &'static str {
-        "FunctionReference"
-    }
-
-    fn parse_pair(pair: Pair<Rule>) -> Self {
-        assert_eq!(pair.as_rule(), Self::rule());
+impl FunctionReference {
+    fn parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
+        assert_eq!(pair.as_rule(), Rule::function_reference);
         let mut iter = RuleIter::from(pair.into_inner());
 
         // Compound function name (required) — e.g. "equal" or "equal:any_any"
@@ -757,19 +741,19 @@ impl ParsePair for FunctionReference {
         // Optional anchor (e.g., #1)
         let anchor = iter
             .try_pop(Rule::anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+            .map(|n| parse_number("anchor", &unwrap_single_pair(n)))
+            .transpose()?;
 
         // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor = iter
+        let _urn_anchor: Option<u32> = iter
             .try_pop(Rule::urn_anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+            .map(|n| parse_number("urn_anchor", &unwrap_single_pair(n)))
+            .transpose()?;
 
         iter.done();
-        FunctionReference { name, anchor }
+        Ok(FunctionReference { name, anchor })
     }
-}
 
-impl FunctionReference {
     /// Resolve this reference to a concrete function anchor against the
     /// extension registry.
     fn resolve(
@@ -840,7 +824,7 @@ impl ScopedParsePair for ScalarFunction {
         let type_pair = iter.pop(Rule::r#type);
         iter.done();
 
-        let reference = FunctionReference::parse_pair(reference_pair);
+        let reference = FunctionReference::parse_pair(reference_pair)?;
         let FunctionArguments(arguments) = FunctionArguments::parse_pair(extensions, args_pair)?;
         // Required output type (e.g., :i64); the grammar guarantees its presence.
         let output_type = Type::parse_pair(extensions, type_pair)?;
@@ -928,9 +912,9 @@ impl ScopedParsePair for Expression {
                 )?)),
             }),
             Rule::reference => Ok(Expression {
-                rex_type: Some(RexType::Selection(Box::new(FieldReference::parse_pair(
-                    inner,
-                )))),
+                rex_type: Some(RexType::Selection(Box::new(
+                    FieldIndex::try_parse_pair(inner)?.to_field_reference(),
+                ))),
             }),
             Rule::if_then => Ok(Expression {
                 rex_type: Some(RexType::IfThen(Box::new(IfThen::parse_pair(
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..5e835c2 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    parse_number, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -181,28 +181,41 @@ pub struct SimpleExtensionDeclaration {
     pub name: String,
 }
 
-impl ParsePair for URNExtensionDeclaration {
-    fn rule() -> Rule {
-        Rule::extension_urn_declaration
-    }
-
-    fn message() -> &'static str {
-        "URNExtensionDeclaration"
+/// Parse a whole declaration line with `rule`; text left over after it is an
+/// error.
+fn parse_whole<'a>(
+    message: &'static str,
+    rule: Rule,
+    s: &'a str,
+) -> Result<Pair<'a, Rule>, MessageParseError> {
+    let mut pairs = <ExpressionParser as pest::Parser<Rule>>::parse(rule, s)
+        .map_err(|e| MessageParseError::new(message, ErrorKind::Syntax, Box::new(e)))?;
+    let pair = pairs.next().unwrap();
+    let rest = pair.as_span().end();
+    if rest != s.len() {
+        return Err(MessageParseError::invalid(
+            message,
+            pest::Span::new(s, rest, s.len()).expect("the rest of the line is a valid span"),
+            "Unexpected text after the declaration",
+        ));
     }
+    Ok(pair)
+}
 
-    fn parse_pair(pair: Pair<Rule>) -> Self {
-        assert_eq!(pair.as_rule(), Self::rule());
-
+impl URNExtensionDeclaration {
+    fn parse_str(s: &str) -> Result<Self, MessageParseError> {
+        let pair = parse_whole(
+            "URNExtensionDeclaration",
+            Rule::extension_urn_declaration,
+            s,
+        )?;
         let mut iter = RuleIter::from(pair.into_inner());
         let anchor_pair = iter.pop(Rule::urn_anchor);
-        let anchor = unwrap_single_pair(anchor_pair)
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_number("urn_anchor", &unwrap_single_pair(anchor_pair))?;
         let urn = iter.pop(Rule::urn).as_str().to_string();
         iter.done();
 
-        URNExtensionDeclaration { anchor, urn }
+        Ok(URNExtensionDeclaration { anchor, urn })
     }
 }
 
@@ -216,22 +229,14 @@ impl FromStr for URNExtensionDeclaration {
 
 impl SimpleExtensionDeclaration {
     fn parse_from_kind(s: &str, kind: ExtensionKind) -> Result<Self, MessageParseError> {
-        let mut pairs = <ExpressionParser as pest::Parser<Rule>>::parse(Rule::simple_extension, s)
-            .map_err(|e| {
-                MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
-            })?;
-        assert_eq!(pairs.as_str(), s);
-        let pair = pairs.next().unwrap();
+        let pair = parse_whole("SimpleExtensionDeclaration", Rule::simple_extension, s)?;
         let mut iter = RuleIter::from(pair.into_inner());
 
-        let anchor = unwrap_single_pair(iter.pop(Rule::anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
-        let urn_anchor = unwrap_single_pair(iter.pop(Rule::urn_anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_number("anchor", &unwrap_single_pair(iter.pop(Rule::anchor)))?;
+        let urn_anchor = parse_number(
+            "urn_anchor",
+            &unwrap_single_pair(iter.pop(Rule::urn_anchor)),
+        )?;
         let name_pair = iter.pop(Rule::simple_extension_name);
         let name_span = name_pair.as_span();
         let name = name_pair.as_str();
@@ -291,7 +296,7 @@ impl ScopedParsePair for ExtensionValue {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::try_parse_pair(inner)?;
                 ExtensionValue::from(Reference(field_index.0))
             }
             Rule::parameter_literal => {
@@ -299,9 +304,7 @@ impl ScopedParsePair for ExtensionValue {
                 let value_pair = unwrap_single_pair(inner);
                 match value_pair.as_rule() {
                     Rule::string_literal => ExtensionValue::String(unescape_string(value_pair)),
-                    Rule::integer => {
-                        ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
-                    }
+                    Rule::integer => ExtensionValue::Integer(parse_number("integer", &value_pair)?),
                     Rule::float => {
                         ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
                     }
@@ -359,7 +362,7 @@ impl ScopedParsePair for ExtensionColumn {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::try_parse_pair(inner)?;
                 ExtensionColumn::Expr(Reference(field_index.0).into())
             }
             Rule::expression => {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..4cf3467 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, parse_number, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..62255c9 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -207,10 +207,10 @@ pub(crate) fn expect_one_child(
 
 /// Parse a reference list Pair and return an EmitKind::Emit.
 /// Parse a reference list into field indices for emit mapping.
-fn parse_output_mapping(pair: Pair<Rule>) -> Vec<i32> {
+fn parse_output_mapping(pair: Pair<Rule>) -> Result<Vec<i32>, MessageParseError> {
     assert_eq!(pair.as_rule(), Rule::reference_list);
     pair.into_inner()
-        .map(|p| FieldIndex::parse_pair(p).0)
+        .map(|p| FieldIndex::try_parse_pair(p).map(|f| f.0))
         .collect()
 }
 
@@ -238,11 +238,14 @@ pub(crate) fn direct_common() -> RelCommon {
 }
 
 /// Parse a reference list into an emit and output field count.
-fn parse_emit(reference_list: Pair<Rule>, direct_output_count: usize) -> (EmitKind, usize) {
-    let output_mapping = parse_output_mapping(reference_list);
+fn parse_emit(
+    reference_list: Pair<Rule>,
+    direct_output_count: usize,
+) -> Result<(EmitKind, usize), MessageParseError> {
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
     let emit = make_emit(output_mapping, direct_output_count);
-    (emit, output_count)
+    Ok((emit, output_count))
 }
 
 fn parse_output(
@@ -266,7 +269,7 @@ fn parse_output(
             iter.done();
 
             let direct_output_count = columns.len();
-            let (emit, output_count) = parse_emit_suffix(emit_suffix)
+            let (emit, output_count) = parse_emit_suffix(emit_suffix)?
                 .unwrap_or((EmitKind::Direct(Direct {}), direct_output_count));
             let common = Some(RelCommon {
                 emit_kind: Some(emit),
@@ -278,13 +281,18 @@ fn parse_output(
     }
 }
 
-fn parse_emit_suffix(suffix: Pair<Rule>) -> Option<(EmitKind, usize)> {
+fn parse_emit_suffix(suffix: Pair<Rule>) -> Result<Option<(EmitKind, usize)>, MessageParseError> {
     assert_eq!(suffix.as_rule(), Rule::emit_suffix);
-    let reference_list = suffix.into_inner().next()?;
+    let Some(reference_list) = suffix.into_inner().next() else {
+        return Ok(None);
+    };
     assert_eq!(reference_list.as_rule(), Rule::reference_list);
-    let output_mapping = parse_output_mapping(reference_list);
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
-    Some((EmitKind::Emit(Emit { output_mapping }), output_count))
+    Ok(Some((
+        EmitKind::Emit(Emit { output_mapping }),
+        output_count,
+    )))
 }
 
 impl RelationParsePair for ReadRel {
@@ -557,7 +565,7 @@ impl RelationParsePair for FilterRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -609,7 +617,7 @@ impl RelationParsePair for ProjectRel {
             let inner_arg = unwrap_single_pair(arg);
             match inner_arg.as_rule() {
                 Rule::reference => {
-                    let field_index = FieldIndex::parse_pair(inner_arg);
+                    let field_index = FieldIndex::try_parse_pair(inner_arg)?;
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -935,7 +943,7 @@ impl RelationParsePair for SortRel {
             let sort_field = SortField::parse_pair(extensions, sort_field_pair)?;
             sorts.push(sort_field);
         }
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1106,7 +1114,7 @@ impl RelationParsePair for FetchRel {
         };
 
         let references_pair = iter.pop(Rule::reference_list);
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1217,7 +1225,7 @@ impl RelationParsePair for JoinRel {
         // TODO: For semi/anti joins, the direct output width differs from
         // left+right — `input_field_count` would misclassify the emit as Direct.
         // Revisit when those join types are supported.
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1281,7 +1289,7 @@ impl RelationParsePair for CrossRel {
         let reference_list_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count);
+        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1364,7 +1372,7 @@ pub(crate) fn parse_set_relation_pair(
     let reference_list_pair = iter.pop(Rule::reference_list);
     iter.done();
 
-    let (emit, output_count) = parse_emit(reference_list_pair, child_width);
+    let (emit, output_count) = parse_emit(reference_list_pair, child_width)?;
     let common = RelCommon {
         emit_kind: Some(emit),
         ..Default::default()
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..2803b8a 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -2,7 +2,7 @@ use pest::iterators::Pair;
 use substrait::proto::r#type::{Kind, Nullability, Parameter};
 use substrait::proto::{self, Type};
 
-use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, unwrap_single_pair};
+use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, parse_number, unwrap_single_pair};
 use crate::extensions::SimpleExtensions;
 use crate::extensions::simple::{ExtensionKind, MissingReference};
 use crate::parser::MessageParseError;
@@ -312,12 +312,14 @@ fn parse_user_defined_type(
     let name = iter.pop(Rule::identifier).as_str().to_string();
     let anchor = iter
         .try_pop(Rule::anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_number("anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     // TODO: Handle urn_anchor; validate that it matches the anchor
-    let _urn_anchor = iter
+    let _urn_anchor: Option<u32> = iter
         .try_pop(Rule::urn_anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_number("urn_anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     let nullability = iter.parse_next::<Nullability>();
     let parameters = match iter.try_pop(Rule::parameters) {
-- 
2.43.0


From 287cafea0a44ce2362f0c969780f5756ac05fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 03/49] fix: report unsupported types as parse errors instead
 of panicking

map and struct types, non-type parameters and the unsigned integer names (which
Substrait does not have) reached unimplemented!/unreachable!.
---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 2803b8a..a19377a 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,11 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            _ => Err(MessageParseError::invalid(
+                Self::message(),
+                inner.as_span(),
+                "Only types are supported as type parameters",
+            )),
         }
     }
 }
@@ -193,7 +197,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(MessageParseError::invalid(
+            "compound_type",
+            inner.as_span(),
+            "Map and struct types are not supported",
+        )),
     }
 }
 
-- 
2.43.0


From cf0b7644dfac2782fa120e0f2d7a826484e8fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 04/49] fix: do not match a keyword or type name that is a
 prefix of a longer identifier

A user-defined type such as date_range, a function such as nullif and an
argument name such as null_count were cut at the keyword they start with, so
text the formatter itself writes could not be parsed.
---
 src/parser/expression_grammar.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..acd5705 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,10 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+boolean    = @{ ("true" | "false") ~ word_end }
+null       = @{ "null" ~ word_end }
+// The end of a keyword: it must not continue as a longer identifier.
+word_end   = _{ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
@@ -79,7 +81,7 @@ nullability = { ("?" | "⁉")? }
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
 simple_type_name = {
-    "boolean"
+  ( "boolean"
   | "i8"
   | "i16"
   | "i32"
@@ -94,6 +96,7 @@ simple_type_name = {
   | "time"
   | "interval_year"
   | "uuid"
+  ) ~ word_end
 }
 
 // A simple native type expression, composed of a name and optional nullability.
-- 
2.43.0


From 797f819281a1a666ba0dc197a60d8f82b050f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 05/49] fix: parse an ascribed or fractional literal as a Fetch
 limit or offset

The integer alternative matched the digits and left the type suffix (written
by the verbose formatter) unparsed.
---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index acd5705..f720e4e 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -340,7 +340,7 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+fetch_value          =  { integer ~ !(":" | ".") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From df9e4f66ea8dc9c9e98eab71524d719c0438524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 06/49] fix: parse an Aggregate whose first grouping expression
 is a cast

---
 src/parser/expression_grammar.pest | 4 +++-
 src/parser/relations.rs            | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index f720e4e..73f7dc4 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -321,7 +321,9 @@ project_argument      = { reference | expression }
 // Aggregate[_ => sum($0), count($1)]   # No grouping (global aggregates)
 aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~ aggregate_output ~ "]" }
 
-aggregate_group_by = { grouping_set_list | expression_list }
+// expression_list goes first: a grouping expression that is a cast, such as
+// ($0)::i32, starts like a parenthesized grouping set.
+aggregate_group_by = { expression_list | grouping_set_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
 grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 62255c9..6919bff 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -793,7 +793,7 @@ fn parse_aggregate_output(
 ///
 /// Each inner Vec is one grouping set; an empty vec represents no grouping (global aggregate).
 ///
-/// Grammar: `aggregate_group_by = { grouping_set_list | expression_list }`
+/// Grammar: `aggregate_group_by = { expression_list | grouping_set_list }`
 fn parse_grouping_sets(
     extensions: &SimpleExtensions,
     inner: Pair<'_, Rule>,
-- 
2.43.0


From 7bc620e6456feafe2c588c86dc576081ba213ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 07/49] fix: reject literals that do not fit their ascribed
 type, keep string nullability

An i8, i16 or i32 literal wrapped around when out of range, 'x':string? lost its
nullability, and a string with any other ascribed type became a plain string.
---
 src/parser/expressions.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3fba550..14f3be8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -86,30 +86,28 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = parse_number("int_literal", &value)?;
-
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(parse_number::<i8>("int_literal", &value)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(parse_number::<i16>("int_literal", &value)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(parse_number("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I64(i) => (
-            LiteralType::I64(parsed_value),
+            LiteralType::I64(parse_number("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
@@ -325,14 +323,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 3616a3269c7b3a1fe20ee32efab7ab5e87610f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:41 +0000
Subject: [PATCH 08/49] fix: write a failure token for a date literal outside
 the representable range

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..985373c 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -115,11 +115,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string, or `None` if the date is
+/// outside the range `chrono` can represent.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -318,9 +319,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write!(w, "{f}"),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("date is out of range: {days} days since the epoch"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From d8b394cd4ade690d84d5fe5d14ea5b0db195be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 09/49] fix: write whole-valued floats with a fraction and
 non-finite floats as failures

1.0 was written as 1, which reads back as an integer (or not at all for fp32);
NaN and infinities were written as text that does not parse.
---
 src/textify/expressions.rs | 29 +++++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 985373c..d7a1533 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -302,6 +302,31 @@ fn write_interval_day_to_second_literal<S: Scope, W: fmt::Write>(
     write!(w, "'{}'", escaped(&duration))
 }
 
+/// Write a floating-point value with a fractional part, so that a whole number
+/// does not read back as an integer. Infinities and NaN have no text form.
+pub(crate) fn write_float<S: Scope, W: fmt::Write>(
+    value: impl fmt::Display,
+    finite: bool,
+    variant: &'static str,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    if !finite {
+        return write!(
+            w,
+            "{}",
+            ctx.failure(PlanError::invalid(
+                "LiteralType",
+                Some(variant),
+                format!("non-finite value: {value}"),
+            ))
+        );
+    }
+    let text = value.to_string();
+    let fraction = if text.contains('.') { "" } else { ".0" };
+    write!(w, "{text}{fraction}")
+}
+
 /// Write just the value portion of a literal, with no type suffix or
 /// nullability marker.
 ///
@@ -315,8 +340,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => write_float(f, f.is_finite(), "Fp32", ctx, w),
+        LiteralType::Fp64(f) => write_float(f, f.is_finite(), "Fp64", ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => match days_to_date_string(*days) {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..8a4dd80 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::write_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => write_float(f, f.is_finite(), "Float", ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From 2cc357d2df6f71e843517ba29cc0a06e03a07c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:01 +0000
Subject: [PATCH 10/49] fix: quote extension names and argument names that are
 not identifiers

---
 src/parser/extensions.rs  | 13 +++----------
 src/textify/addenda.rs    |  8 +++++++-
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 5e835c2..d282e41 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -476,17 +476,10 @@ impl ScopedParsePair for ExtensionInvocation {
         let mut iter = pair.into_inner();
 
         // Parse extension name to determine relation type and custom name
-        let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
-
-        // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let mut name_iter = iter.next().unwrap().into_inner(); // Grammar guarantees extension_name exists
+        let relation_type_str = name_iter.next().unwrap().as_str();
+        let custom_name = Name::parse_pair(name_iter.next().unwrap()).0.to_string();
 
         let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
         let mut args = ExtensionArgs::default();
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..be5ab07 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,7 +161,12 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
-                    write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
+                    write!(
+                        w,
+                        "{indent}+ {prefix}:{}[{}]",
+                        Name(name),
+                        ctx.display(args)
+                    )
                 }
             }
             AddendumLine::DecodeError { kind, error } => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8a4dd80..b1aab26 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From 9bdcac184580f44a5685a061ec75314aaab40e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:15 +0000
Subject: [PATCH 11/49] fix: decode the \0 and \u{...} escapes that the
 formatter writes

---
 src/parser/common.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index ecdec5d..f7adb1b 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -106,6 +106,14 @@ where
     })
 }
 
+/// Decode the `{...}` of a `\u{...}` escape at the start of `s`: the character
+/// it stands for, and the length of the escape in bytes.
+fn unicode_escape(s: &str) -> Option<(char, usize)> {
+    let hex = s.strip_prefix('{')?.split_once('}')?.0;
+    let c = char::from_u32(u32::from_str_radix(hex, 16).ok()?)?;
+    Some((c, hex.len() + 2))
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -160,6 +168,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    'u' => match unicode_escape(chars.as_str()) {
+                        Some((c, len)) => {
+                            result.push(c);
+                            chars = chars.as_str()[len..].chars();
+                        }
+                        None => result.push(next),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
-- 
2.43.0


From 7768c590003ef92541f4d8320489c3e155b716a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 12/49] fix: parse the clustered sort direction that the
 formatter writes

---
 GRAMMAR.md                         | 4 ++--
 src/parser/common.rs               | 1 +
 src/parser/expression_grammar.pest | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/GRAMMAR.md b/GRAMMAR.md
index 8e27556..e4921cd 100644
--- a/GRAMMAR.md
+++ b/GRAMMAR.md
@@ -216,7 +216,7 @@ Enum fields in arguments are represented as &-prefixed variants (e.g., `&AscNull
 
 #### Examples
 
-- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast` - sort directions
+- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast`, `&Clustered` - sort directions
 
 ### Scalar values
 
@@ -1098,7 +1098,7 @@ Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => $0, $1]
 sort_relation := "Sort" "[" sort_fields "=>" reference_list "]"
 sort_fields := sort_field ("," sort_field)*
 sort_field := "(" expression "," sort_direction ")"
-sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast"
+sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast" / "&Clustered"
 ```
 
 #### Components
diff --git a/src/parser/common.rs b/src/parser/common.rs
index f7adb1b..0b0e243 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -396,6 +396,7 @@ pub(crate) fn sort_direction_from_str(
         "AscNullsLast" => Ok(SortDirection::AscNullsLast),
         "DescNullsFirst" => Ok(SortDirection::DescNullsFirst),
         "DescNullsLast" => Ok(SortDirection::DescNullsLast),
+        "Clustered" => Ok(SortDirection::Clustered),
         other => Err(MessageParseError::invalid(
             "SortDirection",
             span,
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 73f7dc4..1584106 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -338,7 +338,7 @@ empty = { "_" }
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
 sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
-sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
+sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-- 
2.43.0


From 53c496d3b553f78509745946824f2572c14d396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:44 +0000
Subject: [PATCH 13/49] fix: report the line number of text before the first
 section header

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..db91763 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1055,8 +1055,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 6ceea7af48a765b0f0b33fea6ccf5aff74d0622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:03 +0000
Subject: [PATCH 14/49] fix: parse a function call with a signature as an
 extension output column

---
 src/parser/expression_grammar.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 1584106..950ca44 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -407,7 +407,9 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// A named column must span its whole item: a call such as add:i64_i64($0):i64
+// starts like one.
+extension_column  = { named_column ~ &(sp ~ ("," | "]")) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From 5aeca443d90aec1e94993bdb4693a53d78c0b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 15/49] fix: reject a duplicate named argument of an extension
 instead of dropping one

---
 src/parser/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index d282e41..7fb901c 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -589,7 +589,15 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
+                    if args.named.contains_key(&key) {
+                        return Err(MessageParseError::invalid(
+                            "NamedArg",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
                     args.insert(key, val);
                 }
-- 
2.43.0


From f19c181a3c96608170750a6a4830737d082c7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:37 +0000
Subject: [PATCH 16/49] fix: use a join's own output width to tell a direct
 output from an emit

Semi, anti, single and mark joins do not output both sides, so an emit of all
columns of both sides was read as direct and then written as one side.
---
 src/parser/relations.rs  | 23 ++++++++++++++++++++---
 src/parser/structural.rs |  6 ++----
 src/textify/rels.rs      | 17 ++++++++++++-----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 6919bff..8cacf1f 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -25,6 +25,7 @@ use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs, ExtensionRegistry, SimpleExtensions};
 use crate::parser::errors::{ParseContext, ParseError};
 use crate::parser::expressions::{FieldIndex, Name};
+use crate::textify::rels::join_output_width;
 
 /// Parsing context for relations that includes extensions, registry, and optional warning collection
 pub struct RelationParsingContext<'a> {
@@ -100,6 +101,14 @@ pub trait RelationParsePair: Sized {
         input_field_count: usize,
     ) -> Result<(Self, usize), MessageParseError>;
 
+    /// The `input_field_count` for [`parse_pair_with_context`], given the width
+    /// of each child: their sum, unless the relation's direct output differs.
+    ///
+    /// [`parse_pair_with_context`]: Self::parse_pair_with_context
+    fn input_field_count(_pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        child_field_counts.iter().sum()
+    }
+
     /// Consume this parsed relation, apply the advanced extension, and produce
     /// the final `Rel`.
     fn into_rel(self, adv_ext: Option<AdvancedExtension>) -> Rel;
@@ -1179,6 +1188,17 @@ impl RelationParsePair for JoinRel {
         "JoinRel"
     }
 
+    fn input_field_count(pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        // Semi, anti, single and mark joins do not output both sides.
+        let join_type =
+            RuleIter::from(pair.clone().into_inner()).parse_next::<join_rel::JoinType>();
+        match child_field_counts {
+            &[left, right] => join_output_width(join_type, left, right),
+            // A wrong number of children is reported when the join is parsed.
+            _ => child_field_counts.iter().sum(),
+        }
+    }
+
     fn into_rel(mut self, adv_ext: Option<AdvancedExtension>) -> Rel {
         self.advanced_extension = adv_ext;
         Rel {
@@ -1222,9 +1242,6 @@ impl RelationParsePair for JoinRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        // TODO: For semi/anti joins, the direct output width differs from
-        // left+right — `input_field_count` would misclassify the emit as Direct.
-        // Revisit when those join types are supported.
         let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index db91763..1fbb710 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -548,12 +548,10 @@ impl<'a> RelationParser<'a> {
         assert_eq!(pair.as_rule(), T::rule());
         let line = pair.as_str();
         let advanced_extension = addenda.into_standard_advanced_extension(registry)?;
-        let input_field_count: usize = children.iter().map(|c| c.field_count).sum();
+        let child_field_counts: Vec<usize> = children.iter().map(|c| c.field_count).collect();
+        let input_field_count = T::input_field_count(&pair, &child_field_counts);
         let input_children = into_rels(children);
 
-        // TODO: pass `ParsedChildren` into `parse_pair_with_context`, instead
-        // of this overall 'input_field_count'; for some relations (e.g. a LEFT
-        // SEMI JOIN), the field count sum is not the correct count.
         match T::parse_pair_with_context(extensions, pair, input_children, input_field_count) {
             Ok((parsed, count)) => Ok((parsed.into_rel(advanced_extension), count)),
             Err(e) => Err(ParseError::Plan(
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..6b2e44c 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -957,12 +957,13 @@ impl<'a> Relation<'a> {
     }
 }
 
-fn join_output_columns(
+/// The number of columns a join outputs before any emit is applied.
+pub(crate) fn join_output_width(
     join_type: join_rel::JoinType,
     left_columns: usize,
     right_columns: usize,
-) -> Vec<Value<'static>> {
-    let total_columns = match join_type {
+) -> usize {
+    match join_type {
         // Inner, Left, Right, Outer joins output columns from both sides
         join_rel::JoinType::Inner
         | join_rel::JoinType::Left
@@ -985,10 +986,16 @@ fn join_output_columns(
 
         // Unspecified - fallback to all columns
         join_rel::JoinType::Unspecified => left_columns + right_columns,
-    };
+    }
+}
 
+fn join_output_columns(
+    join_type: join_rel::JoinType,
+    left_columns: usize,
+    right_columns: usize,
+) -> Vec<Value<'static>> {
     // Output is always a contiguous range starting from $0
-    (0..total_columns)
+    (0..join_output_width(join_type, left_columns, right_columns))
         .map(|i| Value::Reference(i as i32))
         .collect()
 }
-- 
2.43.0


From 047634407e3b46e8db9de591e53f145896f2f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 17/49] fix: reject floating-point numbers that overflow to
 infinity

---
 src/parser/expressions.rs | 12 ++++++++++++
 src/parser/extensions.rs  | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 14f3be8..42f40a3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -139,6 +139,18 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
+    let finite = match &kind {
+        Kind::Fp32(_) => (parsed_value as f32).is_finite(),
+        _ => parsed_value.is_finite(),
+    };
+    if !finite {
+        return Err(MessageParseError::invalid(
+            "float_literal",
+            value.as_span(),
+            "Floating-point literal is out of range",
+        ));
+    }
+
     let (lit, nullability, tvar) = match &kind {
         Kind::Fp32(f) => (
             LiteralType::Fp32(parsed_value as f32),
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 7fb901c..cec5bcd 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -306,7 +306,15 @@ impl ScopedParsePair for ExtensionValue {
                     Rule::string_literal => ExtensionValue::String(unescape_string(value_pair)),
                     Rule::integer => ExtensionValue::Integer(parse_number("integer", &value_pair)?),
                     Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
+                        let value = value_pair.as_str().parse::<f64>().unwrap();
+                        if !value.is_finite() {
+                            return Err(MessageParseError::invalid(
+                                "float",
+                                value_pair.as_span(),
+                                "Floating-point argument is out of range",
+                            ));
+                        }
+                        ExtensionValue::Float(value)
                     }
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
-- 
2.43.0


From a62237c5154a261f2efcd79ff101033415896cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:21 +0000
Subject: [PATCH 18/49] fix: report a failed write of buffered output

Output without a final newline stayed in the buffer of stdout, and an error
writing it at exit went unnoticed.
---
 src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..f79792e 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -443,12 +443,14 @@ fn read_binary_input<R: Read>(mut reader: R) -> Result<Vec<u8>> {
 /// Write text output to writer
 fn write_text_output<W: Write>(mut writer: W, content: &str) -> Result<()> {
     writer.write_all(content.as_bytes())?;
+    writer.flush()?;
     Ok(())
 }
 
 /// Write binary output to writer
 fn write_binary_output<W: Write>(mut writer: W, content: &[u8]) -> Result<()> {
     writer.write_all(content)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 792ec65d4319b397008b0b61c8eb49f16bd53752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:25 +0000
Subject: [PATCH 19/49] fix: show deprecated grouping expressions when the
 first grouping set is empty

---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 6b2e44c..9d65cec 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -728,8 +728,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|g| !g.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From 5b8d2420c713dbe0bee4fcf65de3056173ed161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:07 +0000
Subject: [PATCH 20/49] fix: report a missing input relation or measure instead
 of dropping it

---
 src/textify/rels.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 9d65cec..aed0398 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -352,9 +352,19 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => {
+                    let token = ctx.failure(PlanError::invalid(
+                        "Rel",
+                        Some(self.name.to_string()),
+                        "input relation is missing",
+                    ));
+                    write!(w, "{}{token}", child_scope.indent())?
+                }
+            }
         }
         Ok(())
     }
@@ -786,9 +796,10 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            all_outputs.push(Value::expect(
+                m.measure.as_ref().map(Value::AggregateFunction),
+                || PlanError::invalid("Measure", Some("measure"), "measure function is missing"),
+            ));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
@@ -846,12 +857,18 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => {
+                let token = ctx.failure(PlanError::invalid(
+                    "RelRoot",
+                    Some("input"),
+                    "input relation is missing",
+                ));
+                write!(w, "{}{token}", child_scope.indent())
+            }
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From b868965111c5e6538513bdd4229bfcc832cb7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:14 +0000
Subject: [PATCH 21/49] fix: report a nested field reference instead of showing
 only its first step

---
 src/textify/expressions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index d7a1533..244a56c 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -641,9 +641,18 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
-            Some(reference_segment::ReferenceType::StructField(s)) => {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_none() => {
                 write!(w, "{}", Reference(s.field))
             }
+            Some(reference_segment::ReferenceType::StructField(_)) => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ReferenceSegment",
+                    Some("child"),
+                    "textification of nested field references is not implemented",
+                ))
+            ),
             None => write!(
                 w,
                 "{}",
-- 
2.43.0


From b89473d44dc802e98a579f72707ec3b1a10109a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:10 +0000
Subject: [PATCH 22/49] fix: parse nested extension tuples in linear instead of
 exponential time

---
 src/parser/expression_grammar.pest | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 950ca44..8dc5e53 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -389,15 +389,17 @@ parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":
 
 // Tuples follow the Python/Rust trailing-comma convention to disambiguate from parenthesised
 // expressions.
+// The first element is parsed once whatever the arity: with an alternative per
+// arity, each level of nesting would be parsed once per alternative.
 tuple = {
         // empty tuple (0-tuple)
         "(" ~ sp ~ ")"
-        // Single element (1-tuple) - uses trailing comma to distinguish from expression
-        | "(" ~ sp ~ extension_argument ~ sp ~ "," ~ sp ~ ")"
-        // Multi-element tuple. Trailing comma optional.
         | "(" ~ sp ~ extension_argument
-              ~ (sp ~ "," ~ sp ~ extension_argument)+
-              ~ (sp ~ ",")? ~ sp ~ ")"
+              // Multi-element tuple. Trailing comma optional.
+              ~ ((sp ~ "," ~ sp ~ extension_argument)+ ~ (sp ~ ",")?
+              // Single element (1-tuple) - uses trailing comma to distinguish from expression
+                | sp ~ ",")
+              ~ sp ~ ")"
         }
 extension_argument  = { enum_value | parameter_literal | reference | expression | tuple }
 
-- 
2.43.0


From ae103519de58cc2c9f194574c9f878df54f2d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 23/49] fix: reject a reference whose URN anchor is not the
 declared one

---
 src/parser/expressions.rs | 29 ++++++++++++++++++---------
 src/parser/types.rs       | 41 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 42f40a3..65475ee 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -21,7 +21,7 @@ use substrait::proto::function_argument::ArgType;
 use substrait::proto::r#type::{Fp64, I64, Kind, Nullability};
 use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
-use super::types::get_and_validate_anchor;
+use super::types::{get_and_validate_anchor, validate_urn_anchor};
 use super::{
     ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_number,
     unescape_string, unwrap_single_pair,
@@ -736,10 +736,12 @@ impl ScopedParsePair for Literal {
     }
 }
 
-/// An unresolved reference to a function: its compound name plus an optional explicit anchor.
+/// An unresolved reference to a function: its compound name plus an optional
+/// explicit anchor and URN anchor.
 struct FunctionReference {
     name: CompoundName,
     anchor: Option<u32>,
+    urn_anchor: Option<u32>,
 }
 
 impl FunctionReference {
@@ -756,14 +758,18 @@ impl FunctionReference {
             .map(|n| parse_number("anchor", &unwrap_single_pair(n)))
             .transpose()?;
 
-        // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor: Option<u32> = iter
+        // Optional URN anchor (e.g., @1)
+        let urn_anchor = iter
             .try_pop(Rule::urn_anchor)
             .map(|n| parse_number("urn_anchor", &unwrap_single_pair(n)))
             .transpose()?;
 
         iter.done();
-        Ok(FunctionReference { name, anchor })
+        Ok(FunctionReference {
+            name,
+            anchor,
+            urn_anchor,
+        })
     }
 
     /// Resolve this reference to a concrete function anchor against the
@@ -773,13 +779,18 @@ impl FunctionReference {
         extensions: &SimpleExtensions,
         span: pest::Span,
     ) -> Result<u32, MessageParseError> {
-        get_and_validate_anchor(
+        let name = self.name.full();
+        let anchor =
+            get_and_validate_anchor(extensions, ExtensionKind::Function, self.anchor, name, span)?;
+        validate_urn_anchor(
             extensions,
             ExtensionKind::Function,
-            self.anchor,
-            self.name.full(),
+            anchor,
+            self.urn_anchor,
+            name,
             span,
-        )
+        )?;
+        Ok(anchor)
     }
 }
 
diff --git a/src/parser/types.rs b/src/parser/types.rs
index a19377a..6a249ce 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -57,6 +57,36 @@ pub(crate) fn get_and_validate_anchor(
     }
 }
 
+/// Check that the URN anchor written in a reference (e.g. the `@1` of
+/// `add#10@1`), if any, is the one the referenced extension was declared with.
+pub(crate) fn validate_urn_anchor(
+    extensions: &SimpleExtensions,
+    kind: ExtensionKind,
+    anchor: u32,
+    urn_anchor: Option<u32>,
+    name: &str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let Some(urn_anchor) = urn_anchor else {
+        return Ok(());
+    };
+    match extensions.find_by_anchor(kind, anchor) {
+        Ok((declared, _)) if declared == urn_anchor => Ok(()),
+        Ok(_) => Err(MessageParseError::lookup(
+            kind.name(),
+            MissingReference::Mismatched(kind, name.to_string(), anchor),
+            span,
+            "URN anchor does not match the declaration",
+        )),
+        Err(e) => Err(MessageParseError::lookup(
+            kind.name(),
+            e,
+            span,
+            "Error matching URN anchor to anchor",
+        )),
+    }
+}
+
 impl ParsePair for Nullability {
     fn rule() -> Rule {
         Rule::nullability
@@ -323,8 +353,7 @@ fn parse_user_defined_type(
         .map(|n| parse_number("anchor", &unwrap_single_pair(n)))
         .transpose()?;
 
-    // TODO: Handle urn_anchor; validate that it matches the anchor
-    let _urn_anchor: Option<u32> = iter
+    let urn_anchor: Option<u32> = iter
         .try_pop(Rule::urn_anchor)
         .map(|n| parse_number("urn_anchor", &unwrap_single_pair(n)))
         .transpose()?;
@@ -337,6 +366,14 @@ fn parse_user_defined_type(
     iter.done();
 
     let anchor = get_and_validate_anchor(extensions, ExtensionKind::Type, anchor, &name, span)?;
+    validate_urn_anchor(
+        extensions,
+        ExtensionKind::Type,
+        anchor,
+        urn_anchor,
+        &name,
+        span,
+    )?;
 
     Ok(Type {
         kind: Some(Kind::UserDefined(proto::r#type::UserDefined {
-- 
2.43.0


From 0b933d90cbb9778aa7ac4cc33a8f3e5665eab336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:41 +0000
Subject: [PATCH 24/49] fix: report read filters, measure details and extension
 emits that the text drops

---
 src/textify/expressions.rs |  6 ++++++
 src/textify/rels.rs        | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 244a56c..f222a18 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use chrono::{DateTime, NaiveDate, NaiveTime};
 use expr::RexType;
+use substrait::proto::aggregate_function::AggregationInvocation;
 use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
 use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
 use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType};
@@ -16,6 +17,7 @@ use substrait::proto::{
 use super::{PlanError, Scope, Textify, Visibility};
 use crate::extensions::simple::ExtensionKind;
 use crate::precision::SupportedPrecision;
+use crate::textify::rels::report_unsupported;
 use crate::textify::types::{Name, NamedAnchor, OutputType, escaped};
 
 // …(…) for function call
@@ -961,6 +963,10 @@ impl Textify for AggregateFunction {
     }
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
+        report_unsupported(ctx, !self.sorts.is_empty(), "AggregateFunction", "sorts");
+        let is_distinct = self.invocation() == AggregationInvocation::Distinct;
+        report_unsupported(ctx, is_distinct, "AggregateFunction", "invocation");
+
         let invocation = FunctionInvocation::from(self);
         let output_type = OutputType(self.output_type.as_ref());
 
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index aed0398..7b39b8f 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -380,8 +380,33 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// Report that a field is set which the text format cannot show, so that it is
+/// not silently dropped.
+pub(super) fn report_unsupported<S: Scope>(
+    ctx: &S,
+    is_set: bool,
+    message: &'static str,
+    field: &'static str,
+) {
+    if is_set {
+        let err = PlanError::unimplemented(
+            message,
+            Some(field),
+            format!("{field} is not yet supported in the text format"),
+        );
+        ctx.push_error(err.into());
+    }
+}
+
 impl<'a> Relation<'a> {
     fn from_read<S: Scope>(rel: &'a ReadRel, ctx: &S) -> Self {
+        let filter_shown = matches!(rel.read_type, Some(ReadType::VirtualTable(_)));
+        let filter_dropped = rel.filter.is_some() && !filter_shown;
+        report_unsupported(ctx, filter_dropped, "ReadRel", "filter");
+        let best_effort_filter = rel.best_effort_filter.is_some();
+        report_unsupported(ctx, best_effort_filter, "ReadRel", "best_effort_filter");
+        report_unsupported(ctx, rel.projection.is_some(), "ReadRel", "projection");
+
         let columns = read_columns(rel);
         let emit = rel.common.as_ref().and_then(|c| c.emit_kind.as_ref());
 
@@ -412,6 +437,8 @@ impl<'a> Relation<'a> {
                 }
             }
             Some(ReadType::VirtualTable(vt)) => {
+                #[allow(deprecated)]
+                report_unsupported(ctx, !vt.values.is_empty(), "VirtualTable", "values");
                 let row_count = vt.expressions.len();
                 let mut positional: Vec<Value> = vt
                     .expressions
@@ -512,6 +539,12 @@ pub fn get_emit(rel: Option<&RelCommon>) -> Option<&EmitKind> {
     rel.as_ref().and_then(|c| c.emit_kind.as_ref())
 }
 
+/// Report an emit on a relation whose text form has no place for one.
+fn report_emit<S: Scope>(message: &'static str, common: Option<&RelCommon>, ctx: &S) {
+    let has_emit = matches!(get_emit(common), Some(EmitKind::Emit(_)));
+    report_unsupported(ctx, has_emit, message, "emit");
+}
+
 impl<'a> Relation<'a> {
     /// Convert a vector of relation references into their structured form.
     ///
@@ -620,6 +653,7 @@ impl<'a> Relation<'a> {
     }
 
     fn from_extension_leaf<S: Scope>(rel: &'a ExtensionLeafRel, ctx: &S) -> Self {
+        report_emit("ExtensionLeafRel", rel.common.as_ref(), ctx);
         Relation::from_extension(
             "ExtensionLeaf",
             rel.detail.as_ref().map(AnyRef::from),
@@ -629,6 +663,7 @@ impl<'a> Relation<'a> {
     }
 
     fn from_extension_single<S: Scope>(rel: &'a ExtensionSingleRel, ctx: &S) -> Self {
+        report_emit("ExtensionSingleRel", rel.common.as_ref(), ctx);
         Relation::from_extension(
             "ExtensionSingle",
             rel.detail.as_ref().map(AnyRef::from),
@@ -638,6 +673,7 @@ impl<'a> Relation<'a> {
     }
 
     fn from_extension_multi<S: Scope>(rel: &'a ExtensionMultiRel, ctx: &S) -> Self {
+        report_emit("ExtensionMultiRel", rel.common.as_ref(), ctx);
         let mut child_refs: Vec<Option<&'a Rel>> = vec![];
         for input in &rel.inputs {
             child_refs.push(Some(input));
@@ -796,6 +832,7 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
+            report_unsupported(ctx, m.filter.is_some(), "Measure", "filter");
             all_outputs.push(Value::expect(
                 m.measure.as_ref().map(Value::AggregateFunction),
                 || PlanError::invalid("Measure", Some("measure"), "measure function is missing"),
-- 
2.43.0


From 2eb09e43319d42d4406c9a402741f819336de1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:25 +0000
Subject: [PATCH 25/49] fix: write a failure token for an extension enum value
 that is not an identifier

---
 src/textify/extensions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index b1aab26..2ce70b6 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -10,8 +10,8 @@ use std::fmt;
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
 use crate::textify::expressions::write_float;
-use crate::textify::foundation::{Scope, Textify};
-use crate::textify::types::{Name, escaped};
+use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::{Name, escaped, is_identifer};
 
 impl Textify for TupleValue {
     fn name() -> &'static str {
@@ -46,7 +46,15 @@ impl Textify for ExtensionValue {
                 write!(w, "{}", ctx.failure(FormatError::Extension(error.clone())))
             }
             ExtensionValue::Expr(expr) => expr.textify(ctx, w),
-            ExtensionValue::Enum(e) => write!(w, "&{e}"),
+            ExtensionValue::Enum(e) if is_identifer(e) => write!(w, "&{e}"),
+            ExtensionValue::Enum(e) => {
+                let error = PlanError::invalid(
+                    "ExtensionValue",
+                    Some("enum"),
+                    format!("enum value is not an identifier: {e:?}"),
+                );
+                write!(w, "{}", ctx.failure(error))
+            }
             ExtensionValue::Tuple(tv) => tv.textify(ctx, w),
         }
     }
-- 
2.43.0


From 34bba629d4ca744a69b114056d8b6856e0fdc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 26/49] fix: parse the _ the formatter writes for a Sort with
 no sort fields

---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 8dc5e53..855ed41 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -336,7 +336,7 @@ empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { "_" | (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
-- 
2.43.0


From a250da29ddb3ea6a682352eb23265847db452838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 27/49] fix: reject leap seconds and fraction digits chrono
 would drop

---
 src/parser/expressions.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 65475ee..17a02da 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
 use std::str::FromStr;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
 use pest::Parser as PestParser;
 use pest::iterators::Pair;
 use substrait::proto::aggregate_rel::Measure;
@@ -493,6 +493,35 @@ fn check_supported_precision(
     }
 }
 
+/// Reject what chrono accepts without keeping the value: it ignores fractional
+/// digits past the ninth, and reads second 60 as a leap second, which Substrait
+/// values cannot express.
+fn check_exact_seconds(
+    text: &str,
+    time: NaiveTime,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    if time.nanosecond() >= 1_000_000_000 {
+        return Err(MessageParseError::invalid(
+            "precision_literal_leap_second",
+            span,
+            format!("leap seconds are not supported for {literal_kind} literals"),
+        ));
+    }
+    let fraction = text.rsplit_once('.').map_or("", |(_, fraction)| fraction);
+    if fraction.bytes().skip(9).any(|digit| digit != b'0') {
+        return Err(MessageParseError::invalid(
+            "precision_literal_fractional_truncated",
+            span,
+            format!(
+                "value has a fractional component finer than nanoseconds for a {literal_kind} literal"
+            ),
+        ));
+    }
+    Ok(())
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -516,6 +545,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_exact_seconds(timestamp_str, datetime.time(), literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -545,6 +575,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_exact_seconds(time_str, time, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From cb26e6dde2a85616f3e673220d5797d41ac8517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:58 +0000
Subject: [PATCH 28/49] fix: parse an fp32 literal without rounding through f64

---
 src/parser/expressions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 17a02da..a59cec3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -135,12 +135,14 @@ const UNSIGNED_FLOAT_KIND: Kind = Kind::Fp64(Fp64 {
 fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::float);
     let parsed_value: f64 = value.as_str().parse().unwrap();
+    // Parsed from the text as well: rounding the f64 would round twice.
+    let parsed_fp32: f32 = value.as_str().parse().unwrap();
 
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
     let finite = match &kind {
-        Kind::Fp32(_) => (parsed_value as f32).is_finite(),
+        Kind::Fp32(_) => parsed_fp32.is_finite(),
         _ => parsed_value.is_finite(),
     };
     if !finite {
@@ -153,7 +155,7 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
 
     let (lit, nullability, tvar) = match &kind {
         Kind::Fp32(f) => (
-            LiteralType::Fp32(parsed_value as f32),
+            LiteralType::Fp32(parsed_fp32),
             f.nullability,
             f.type_variation_reference,
         ),
-- 
2.43.0


From c451d8cf6f9f71e16c95a8132e8764372aedce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:19 +0000
Subject: [PATCH 29/49] fix: reject a Project reference that would be taken for
 a computed expression

---
 src/parser/relations.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 8cacf1f..b90ebd0 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -619,6 +619,8 @@ impl RelationParsePair for ProjectRel {
 
         let arguments_pair = unwrap_single_pair(pair);
 
+        let span = arguments_pair.as_span();
+        let mut references = Vec::new();
         let mut expressions = Vec::new();
         let mut output_mapping = Vec::new();
 
@@ -627,6 +629,7 @@ impl RelationParsePair for ProjectRel {
             match inner_arg.as_rule() {
                 Rule::reference => {
                     let field_index = FieldIndex::try_parse_pair(inner_arg)?;
+                    references.push(field_index.0);
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -641,6 +644,16 @@ impl RelationParsePair for ProjectRel {
 
         let output_count = output_mapping.len();
         let direct_count = input_field_count + expressions.len();
+        // A reference names an input field. Past those, the same index in the
+        // mapping would mean one of the computed expressions instead.
+        let computed = input_field_count as i32..direct_count as i32;
+        if let Some(index) = references.iter().find(|&index| computed.contains(index)) {
+            return Err(MessageParseError::invalid(
+                Self::message(),
+                span,
+                format!("reference ${index} is out of range for {input_field_count} input fields"),
+            ));
+        }
         let emit = make_emit(output_mapping, direct_count);
         let common = RelCommon {
             emit_kind: Some(emit),
-- 
2.43.0


From 38778705e3a72a1d2da0dbd0dd06c5789fe9d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:36 +0000
Subject: [PATCH 30/49] fix: reject a repeated producer or git_hash line
 instead of dropping the first

---
 src/parser/structural.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fbb710..e6f652e 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1186,16 +1186,23 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let field = match key.trim() {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("duplicate version field {:?}", key.trim()),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From e72971d1ec1e693794b41be99865cff930a60d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:31 +0000
Subject: [PATCH 31/49] fix: reject a continuation line under a relation that
 has none instead of dropping it

---
 src/parser/structural.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index e6f652e..2afdbc8 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -984,8 +984,9 @@ impl<'a> Parser<'a> {
     }
 
     /// Group the next chunk out of the cursor: always its first physical line,
-    /// plus any `- ` continuation lines indented one level deeper while we are
-    /// in the plan section.
+    /// plus any `- ` continuation lines indented one level deeper when it is a
+    /// `Read:Virtual` line of the plan section. No other relation spans several
+    /// lines, so a `- ` line below one is left to be rejected on its own.
     ///
     /// For consistency, chunks always end with no newline.
     fn next_chunk(&mut self) -> (&'a str, i64) {
@@ -1000,8 +1001,8 @@ impl<'a> Parser<'a> {
             .expect("a non-exhausted cursor always yields a line");
         c.merge(first);
 
-        if matches!(self.state, State::Plan) {
-            let base = IndentedLine::from(first.as_str()).0;
+        let IndentedLine(base, relation) = IndentedLine::from(first.as_str());
+        if matches!(self.state, State::Plan) && relation.starts_with("Read:Virtual") {
             while let Some(line) = c.peek_line() {
                 let IndentedLine(depth, body) = IndentedLine::from(line.as_str());
                 if depth == base + 1 && body.starts_with("- ") {
-- 
2.43.0


From cda109c1806bb078dd3ad5796e3e91d8ce2e1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:22 +0000
Subject: [PATCH 32/49] fix: report deprecated function arguments and partial
 aggregation phases, which were dropped silently

---
 src/textify/expressions.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index f222a18..3527992 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use chrono::{DateTime, NaiveDate, NaiveTime};
 use expr::RexType;
+use substrait::proto::AggregationPhase;
 use substrait::proto::aggregate_function::AggregationInvocation;
 use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
 use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
@@ -739,6 +740,9 @@ impl Textify for ScalarFunction {
     }
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
+        #[allow(deprecated)]
+        report_unsupported(ctx, !self.args.is_empty(), "ScalarFunction", "args");
+
         let invocation = FunctionInvocation::from(self);
         let output_type = OutputType(self.output_type.as_ref());
 
@@ -966,6 +970,15 @@ impl Textify for AggregateFunction {
         report_unsupported(ctx, !self.sorts.is_empty(), "AggregateFunction", "sorts");
         let is_distinct = self.invocation() == AggregationInvocation::Distinct;
         report_unsupported(ctx, is_distinct, "AggregateFunction", "invocation");
+        let is_partial = matches!(
+            self.phase(),
+            AggregationPhase::InitialToIntermediate
+                | AggregationPhase::IntermediateToIntermediate
+                | AggregationPhase::IntermediateToResult
+        );
+        report_unsupported(ctx, is_partial, "AggregateFunction", "phase");
+        #[allow(deprecated)]
+        report_unsupported(ctx, !self.args.is_empty(), "AggregateFunction", "args");
 
         let invocation = FunctionInvocation::from(self);
         let output_type = OutputType(self.output_type.as_ref());
-- 
2.43.0


From 257c1bd89bb87c4bc5b62940ea1095ebbcbc3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:30 +0000
Subject: [PATCH 33/49] fix: show a failure token for a named table without a
 name

---
 src/textify/rels.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 7b39b8f..d9d5a62 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -412,7 +412,15 @@ impl<'a> Relation<'a> {
 
         match &rel.read_type {
             Some(ReadType::NamedTable(table)) => {
-                let table_name = Value::TableName(table.names.iter().map(|n| Name(n)).collect());
+                let table_name = if table.names.is_empty() {
+                    Value::Missing(PlanError::invalid(
+                        "NamedTable",
+                        Some("names"),
+                        "Table name is required",
+                    ))
+                } else {
+                    Value::TableName(table.names.iter().map(|n| Name(n)).collect())
+                };
                 // XXX: For `ReadRel`s, we use `=>` unless there is a remap to
                 // show, in which case we use `+> … |>`. `Direct` and an absent
                 // `common` render the same. However, we ignore the
-- 
2.43.0


From 1d8d6c4c22b813ccfc4833394fa2a5acaffe146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:23 +0000
Subject: [PATCH 34/49] fix: report the remap of a virtual or extension-table
 read, which its text cannot show

---
 src/textify/rels.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index d9d5a62..f0c9753 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -447,6 +447,7 @@ impl<'a> Relation<'a> {
             Some(ReadType::VirtualTable(vt)) => {
                 #[allow(deprecated)]
                 report_unsupported(ctx, !vt.values.is_empty(), "VirtualTable", "values");
+                report_remap("VirtualTable", emit, columns.len(), ctx);
                 let row_count = vt.expressions.len();
                 let mut positional: Vec<Value> = vt
                     .expressions
@@ -490,6 +491,7 @@ impl<'a> Relation<'a> {
                 }
             }
             Some(ReadType::ExtensionTable(table)) => {
+                report_remap("ExtensionTable", emit, columns.len(), ctx);
                 let decoded = match table.detail.as_ref().map(AnyRef::from) {
                     Some(detail) => ctx.extension_registry().decode_extension_table(detail),
                     None => Err(ExtensionError::MissingDetail),
@@ -553,6 +555,16 @@ fn report_emit<S: Scope>(message: &'static str, common: Option<&RelCommon>, ctx:
     report_unsupported(ctx, has_emit, message, "emit");
 }
 
+/// Report a remap of a read whose text form shows only its output columns, so
+/// that the columns it was made from cannot be told apart from it.
+fn report_remap<S: Scope>(message: &'static str, emit: Option<&EmitKind>, columns: usize, ctx: &S) {
+    let is_remap = match emit {
+        Some(EmitKind::Emit(e)) => !e.output_mapping.iter().copied().eq(0..columns as i32),
+        Some(EmitKind::Direct(_)) | None => false,
+    };
+    report_unsupported(ctx, is_remap, message, "emit");
+}
+
 impl<'a> Relation<'a> {
     /// Convert a vector of relation references into their structured form.
     ///
-- 
2.43.0


From 22970b06c7224912450ccfb33f6843123d76d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:56 +0000
Subject: [PATCH 35/49] fix: write NaN and infinite literals in JSON instead of
 dropping them as null

---
 src/cli.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index f79792e..e541065 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -7,6 +7,8 @@ use std::str::FromStr;
 use anyhow::{Context, Result};
 use clap::{Parser, Subcommand};
 use prost::Message;
+#[cfg(feature = "serde")]
+use serde_yaml::Value;
 use substrait::proto::Plan;
 
 use crate::extensions::ExtensionRegistry;
@@ -396,7 +398,7 @@ impl Format {
             Format::Json => {
                 #[cfg(feature = "serde")]
                 {
-                    let json = serde_json::to_string_pretty(plan)?;
+                    let json = plan_to_json(plan)?;
                     write_text_output(writer, &json)?;
                     Ok(Outcome::Success)
                 }
@@ -426,6 +428,46 @@ impl Format {
     }
 }
 
+/// Serialize a plan as JSON.
+///
+/// `serde_json` writes NaN and infinities as `null`, which drops the value, so
+/// plans that hold one are written from a value tree in which they have the
+/// string spelling of the protobuf JSON mapping.
+#[cfg(feature = "serde")]
+fn plan_to_json(plan: &Plan) -> Result<String> {
+    let mut value = serde_yaml::to_value(plan)?;
+    if spell_non_finite(&mut value) {
+        Ok(serde_json::to_string_pretty(&value)?)
+    } else {
+        Ok(serde_json::to_string_pretty(plan)?)
+    }
+}
+
+/// Replace NaN and infinities by their string spellings; returns whether there
+/// were any.
+#[cfg(feature = "serde")]
+fn spell_non_finite(value: &mut Value) -> bool {
+    match value {
+        Value::Number(n) => {
+            let spelling = match n.as_f64() {
+                Some(f) if f.is_nan() => "NaN",
+                Some(f64::INFINITY) => "Infinity",
+                Some(f64::NEG_INFINITY) => "-Infinity",
+                _ => return false,
+            };
+            *value = Value::from(spelling);
+            true
+        }
+        Value::Sequence(items) => items
+            .iter_mut()
+            .fold(false, |found, v| spell_non_finite(v) || found),
+        Value::Mapping(fields) => fields
+            .values_mut()
+            .fold(false, |found, v| spell_non_finite(v) || found),
+        _ => false,
+    }
+}
+
 /// Read text input from reader
 fn read_text_input<R: Read>(mut reader: R) -> Result<String> {
     let mut buffer = String::new();
-- 
2.43.0


From 2bb7392a5206d441e565312192a73d62b06b68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:45 +0000
Subject: [PATCH 36/49] fix: read the input before truncating the output, so
 that converting a file in place keeps its data

---
 src/cli.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index e541065..fbea4b6 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,15 +82,14 @@ impl Cli {
                 show_literal_types,
                 verbose,
             } => {
-                let reader = get_reader(input)
-                    .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
+                let input_bytes = read_input(input)?;
+                let writer = get_writer(output)
+                    .with_context(|| format!("Failed to create output file: {output}"))?;
                 self.run_convert_with_io(
-                    reader,
+                    input_bytes.as_slice(),
                     writer,
                     &from_format,
                     &to_format,
@@ -105,11 +104,10 @@ impl Cli {
                 output,
                 verbose,
             } => {
-                let reader = get_reader(input)
-                    .with_context(|| format!("Failed to open input file: {input}"))?;
+                let input_bytes = read_input(input)?;
                 let writer = get_writer(output)
                     .with_context(|| format!("Failed to create output file: {output}"))?;
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                self.run_validate_with_io(input_bytes.as_slice(), writer, *verbose, registry)
             }
         }
     }
@@ -496,6 +494,13 @@ fn write_binary_output<W: Write>(mut writer: W, content: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Read the whole input, before the output - which may be the same file - is
+/// created.
+fn read_input(path: &str) -> Result<Vec<u8>> {
+    let reader = get_reader(path).with_context(|| format!("Failed to open input file: {path}"))?;
+    read_binary_input(reader).with_context(|| format!("Failed to read input file: {path}"))
+}
+
 /// Helper function to get reader from file path (or stdin if "-")
 fn get_reader(path: &str) -> Result<Box<dyn Read>> {
     if path == "-" {
-- 
2.43.0


From fc1185f4aee82d5b3732d7a9f0d827e01dd55b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:26 +0000
Subject: [PATCH 37/49] fix: reject text after the JSON document instead of
 ignoring it

---
 src/json.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..82cadce 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,12 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .context("failed to parse JSON as substrait.Plan")?;
+    deserializer
+        .end()
+        .context("unexpected text after the JSON plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0


From c25c9487968d3f48cce8f27df6f8a114ad77e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:49 +0000
Subject: [PATCH 38/49] fix: report plan-level extensions, parameter bindings
 and type aliases, which were dropped silently

---
 src/textify/plan.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 36d66f0..48ce3c5 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -6,7 +6,7 @@ use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
 use crate::parser::{PLAN_HEADER, VERSION_HEADER};
 use crate::textify::foundation::ErrorAccumulator;
-use crate::textify::{OutputOptions, ScopedContext};
+use crate::textify::{OutputOptions, PlanError, ScopedContext};
 
 #[derive(Debug, Clone)]
 pub(crate) struct PlanWriter<'a, E: ErrorAccumulator + Default> {
@@ -31,6 +31,24 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
         for err in errs {
             errors.push(err.into());
         }
+        let has_extensions = plan
+            .advanced_extensions
+            .as_ref()
+            .is_some_and(|e| e.enhancement.is_some() || !e.optimization.is_empty());
+        for (is_set, field) in [
+            (has_extensions, "advanced_extensions"),
+            (!plan.parameter_bindings.is_empty(), "parameter_bindings"),
+            (!plan.type_aliases.is_empty(), "type_aliases"),
+        ] {
+            if is_set {
+                let err = PlanError::unimplemented(
+                    "Plan",
+                    Some(field),
+                    format!("{field} is not yet supported in the text format"),
+                );
+                errors.push(err.into());
+            }
+        }
 
         let relations = plan.relations.as_slice();
 
-- 
2.43.0


From 12aa8567f1e58f4b70325b00ef9ca687299e92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:55 +0000
Subject: [PATCH 39/49] fix: report an i8 or i16 literal whose value is outside
 its type

---
 src/textify/expressions.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 3527992..1b2b3c2 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -305,6 +305,29 @@ fn write_interval_day_to_second_literal<S: Scope, W: fmt::Write>(
     write!(w, "'{}'", escaped(&duration))
 }
 
+/// Write the value of an integer literal whose type is narrower than the field
+/// that holds it. A value outside that type is still writable, so report it and
+/// keep going.
+fn write_narrow_int<S: Scope, W: fmt::Write>(
+    value: i32,
+    fits: bool,
+    variant: &'static str,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    if !fits {
+        ctx.push_error(
+            PlanError::invalid(
+                "LiteralType",
+                Some(variant),
+                format!("value {value} is out of range"),
+            )
+            .into(),
+        );
+    }
+    write!(w, "{value}")
+}
+
 /// Write a floating-point value with a fractional part, so that a whole number
 /// does not read back as an integer. Infinities and NaN have no text form.
 pub(crate) fn write_float<S: Scope, W: fmt::Write>(
@@ -341,7 +364,9 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
 ) -> fmt::Result {
     match lit {
         LiteralType::Boolean(b) => write!(w, "{b}"),
-        LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
+        LiteralType::I8(i) => write_narrow_int(*i, i8::try_from(*i).is_ok(), "I8", ctx, w),
+        LiteralType::I16(i) => write_narrow_int(*i, i16::try_from(*i).is_ok(), "I16", ctx, w),
+        LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
         LiteralType::Fp32(f) => write_float(f, f.is_finite(), "Fp32", ctx, w),
         LiteralType::Fp64(f) => write_float(f, f.is_finite(), "Fp64", ctx, w),
-- 
2.43.0


From faa256733921544ffbcb4048d50e796450864e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 40/49] fix: report advanced extensions of a relation's common
 part and of a named table, which were dropped silently

---
 src/textify/rels.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index f0c9753..84d2309 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -4,6 +4,7 @@ use std::convert::TryFrom;
 use std::fmt;
 
 use prost::Message;
+use substrait::proto::extensions::AdvancedExtension;
 use substrait::proto::fetch_rel::{CountMode, OffsetMode};
 use substrait::proto::plan_rel::RelType as PlanRelType;
 use substrait::proto::read_rel::ReadType;
@@ -421,6 +422,8 @@ impl<'a> Relation<'a> {
                 } else {
                     Value::TableName(table.names.iter().map(|n| Name(n)).collect())
                 };
+                let extended = is_extended(table.advanced_extension.as_ref());
+                report_unsupported(ctx, extended, "NamedTable", "advanced_extension");
                 // XXX: For `ReadRel`s, we use `=>` unless there is a remap to
                 // show, in which case we use `+> … |>`. `Direct` and an absent
                 // `common` render the same. However, we ignore the
@@ -545,6 +548,30 @@ fn read_columns<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
     }
 }
 
+/// The `common` part of a relation that the text format can show.
+fn get_common(rel: &Rel) -> Option<&RelCommon> {
+    match rel.rel_type.as_ref()? {
+        RelType::Read(r) => r.common.as_ref(),
+        RelType::Filter(r) => r.common.as_ref(),
+        RelType::Project(r) => r.common.as_ref(),
+        RelType::Aggregate(r) => r.common.as_ref(),
+        RelType::Sort(r) => r.common.as_ref(),
+        RelType::Fetch(r) => r.common.as_ref(),
+        RelType::Join(r) => r.common.as_ref(),
+        RelType::Set(r) => r.common.as_ref(),
+        RelType::Cross(r) => r.common.as_ref(),
+        RelType::ExtensionLeaf(r) => r.common.as_ref(),
+        RelType::ExtensionSingle(r) => r.common.as_ref(),
+        RelType::ExtensionMulti(r) => r.common.as_ref(),
+        _ => None,
+    }
+}
+
+/// Whether an advanced extension holds anything.
+fn is_extended(extension: Option<&AdvancedExtension>) -> bool {
+    extension.is_some_and(|e| e.enhancement.is_some() || !e.optimization.is_empty())
+}
+
 pub fn get_emit(rel: Option<&RelCommon>) -> Option<&EmitKind> {
     rel.as_ref().and_then(|c| c.emit_kind.as_ref())
 }
@@ -639,6 +666,8 @@ impl<'a> Relation<'a> {
     }
 
     pub fn from_rel<S: Scope>(rel: &'a Rel, ctx: &S) -> Self {
+        let extended = get_common(rel).is_some_and(|c| is_extended(c.advanced_extension.as_ref()));
+        report_unsupported(ctx, extended, "RelCommon", "advanced_extension");
         match rel.rel_type.as_ref() {
             Some(RelType::Read(r)) => Relation::from_read(r, ctx),
             Some(RelType::Filter(r)) => Relation::from_filter(r, ctx),
-- 
2.43.0


From 2c6fbfc3dd06fcce0ca4d749bc86c2dc145b2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:07 +0000
Subject: [PATCH 41/49] fix: report a literal's type variation, which was
 dropped silently

---
 src/textify/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 1b2b3c2..b8392cd 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -533,6 +533,8 @@ impl Textify for expr::Literal {
                 ))
             );
         };
+        let varied = self.type_variation_reference != 0;
+        report_unsupported(ctx, varied, "Literal", "type_variation_reference");
         write_literal_value(lit, ctx, w)?;
         let show_suffix = match ctx.options().literal_types {
             Visibility::Never => false,
-- 
2.43.0


From e08f65fafdcd851ace4a1b3e7bd1fbc0af4d23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:13 +0000
Subject: [PATCH 42/49] fix: report an output mapping index that is out of
 range in the explicit mapping suffix too

---
 src/textify/rels.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 84d2309..7cb3d06 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -175,20 +175,25 @@ impl<'a> Emitted<'a> {
 
             match self.values.get(index as usize) {
                 Some(value) => write!(w, "{}", ctx.display(value))?,
-                None => write!(w, "{}", ctx.failure(PlanError::invalid(
-                    "Emitted",
-                    Some("output_mapping"),
-                    format!(
-                        "Output mapping index {} is out of bounds for values collection of size {}",
-                        index, self.values.len()
-                    )
-                )))?,
+                None => write!(w, "{}", ctx.failure(self.out_of_bounds(index)))?,
             }
         }
 
         Ok(())
     }
 
+    fn out_of_bounds(&self, index: i32) -> PlanError {
+        PlanError::invalid(
+            "Emitted",
+            Some("output_mapping"),
+            format!(
+                "Output mapping index {} is out of bounds for values collection of size {}",
+                index,
+                self.values.len()
+            ),
+        )
+    }
+
     fn write_emit_suffix<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let Some(EmitKind::Emit(emit)) = self.emit else {
             return Ok(());
@@ -196,8 +201,10 @@ impl<'a> Emitted<'a> {
         let mapping = emit
             .output_mapping
             .iter()
-            .copied()
-            .map(Value::Reference)
+            .map(|&index| match self.values.get(index as usize) {
+                Some(_) => Value::Reference(index),
+                None => Value::Missing(self.out_of_bounds(index)),
+            })
             .collect::<Vec<_>>();
         write!(w, " |> {}", ctx.separated(mapping.iter(), ", "))
     }
-- 
2.43.0


From dc5d36f1f0b40dca91ac11546bcf46840c5efe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 43/49] fix: report a set relation with fewer than two inputs
 or inputs of different widths

---
 src/textify/rels.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 7cb3d06..1376bc1 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -1194,8 +1194,17 @@ impl<'a> Relation<'a> {
 
         // Set relation output has the same width as any one of its inputs
         // (it's a pass-through, not a concatenation like Join).
-        // TODO: we may want to validate that all inputs have the same width
-        // (and schema, if possible...), and provide a warning if they do not.
+        // TODO: we may want to validate that all inputs have the same schema
+        // too, if possible, and provide a warning if they do not.
+        let widths: Vec<usize> = children.iter().flatten().map(|c| c.emitted()).collect();
+        if widths.len() < 2 || widths.iter().any(|w| *w != widths[0]) {
+            let err = PlanError::invalid(
+                "SetRel",
+                Some("inputs"),
+                format!("needs at least two inputs of one width, got widths {widths:?}"),
+            );
+            ctx.push_error(err.into());
+        }
         let width = if children.is_empty() {
             0
         } else {
-- 
2.43.0


From b98305081a8964bce71063456bddc0daaea46186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 44/49] fix: report version details and declared names with a
 line break, which were written as further lines

---
 src/textify/plan.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 48ce3c5..129e662 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 
 use substrait::proto;
+use substrait::proto::extensions::simple_extension_declaration::MappingType;
 
 use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
@@ -50,6 +51,8 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
             }
         }
 
+        report_line_breaks(plan, &errors);
+
         let relations = plan.relations.as_slice();
 
         (
@@ -127,6 +130,34 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
     }
 }
 
+/// Report the version details and declared names that are written as they are
+/// but do not fit on their line, so that the text says something else.
+fn report_line_breaks<E: ErrorAccumulator>(plan: &proto::Plan, errors: &E) {
+    let mut values = vec![];
+    if let Some(version) = &plan.version {
+        values.push(("Version", "producer", version.producer.trim()));
+        values.push(("Version", "git_hash", version.git_hash.trim()));
+    }
+    for urn in &plan.extension_urns {
+        values.push(("SimpleExtensionUrn", "urn", urn.urn.as_str()));
+    }
+    for extension in &plan.extensions {
+        let name = match &extension.mapping_type {
+            Some(MappingType::ExtensionType(t)) => &t.name,
+            Some(MappingType::ExtensionFunction(f)) => &f.name,
+            Some(MappingType::ExtensionTypeVariation(v)) => &v.name,
+            None => continue,
+        };
+        values.push(("SimpleExtensionDeclaration", "name", name.as_str()));
+    }
+    for (message, field, value) in values {
+        if value.contains('\n') {
+            let description = format!("{field} has a line break: {value:?}");
+            errors.push(PlanError::invalid(message, Some(field), description).into());
+        }
+    }
+}
+
 impl<'a, E: ErrorAccumulator + Default> fmt::Display for PlanWriter<'a, E> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         self.write_version(f)?;
-- 
2.43.0


From b57a10d55d99fdf91c08d302fc9fe61bcd17507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:25 +0000
Subject: [PATCH 45/49] fix: quote enum and string parameters of a type, which
 could be read back as types

---
 src/textify/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..5166176 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -315,10 +315,10 @@ impl Textify for Parameter {
             Parameter::Boolean(true) => write!(w, "true")?,
             Parameter::Boolean(false) => write!(w, "false")?,
             Parameter::DataType(t) => write!(w, "{}", ctx.display(t))?,
-            Parameter::Enum(e) => write!(w, "{e}")?,
+            // Quoted, so that they cannot be taken for a type.
+            Parameter::Enum(e) => write!(w, "\"{}\"", escaped(e))?,
             Parameter::Integer(i) => write!(w, "{i}")?,
-            // TODO: Do we just put the string in directly?
-            Parameter::String(s) => write!(w, "{s}")?,
+            Parameter::String(s) => write!(w, "'{}'", escaped(s))?,
             Parameter::Null(_) => write!(w, "null")?,
         };
 
-- 
2.43.0


From d645cf4c6e237bc1938725f923bce0fd64dd9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:38 +0000
Subject: [PATCH 46/49] fix: report a grouping expression that is output but in
 no grouping set, which was read back as a measure

---
 src/textify/rels.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 1376bc1..27c9a38 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -4,6 +4,7 @@ use std::convert::TryFrom;
 use std::fmt;
 
 use prost::Message;
+use substrait::proto::aggregate_rel::Grouping;
 use substrait::proto::extensions::AdvancedExtension;
 use substrait::proto::fetch_rel::{CountMode, OffsetMode};
 use substrait::proto::plan_rel::RelType as PlanRelType;
@@ -860,6 +861,23 @@ impl<'a> Relation<'a> {
                 }
                 grouping_sets.push(grouping_set);
             }
+            // An expression in no grouping set that is still part of the output
+            // would be read back as a measure.
+            for i in 0..rel.grouping_expressions.len() {
+                let is_used = |g: &Grouping| g.expression_references.contains(&(i as u32));
+                let is_output = match get_emit(rel.common.as_ref()) {
+                    Some(EmitKind::Emit(emit)) => emit.output_mapping.contains(&(i as i32)),
+                    _ => true,
+                };
+                if is_output && !rel.groupings.iter().any(is_used) {
+                    let err = PlanError::invalid(
+                        "AggregateRel",
+                        Some("grouping_expressions"),
+                        format!("grouping expression {i} is in no grouping set"),
+                    );
+                    ctx.push_error(err.into());
+                }
+            }
             // no defined groupings means there is global group by
             if rel.groupings.is_empty() {
                 grouping_sets.push(vec![]);
-- 
2.43.0


From 7591f10518eab86d943c3123c0a9922b57600746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:43 +0000
Subject: [PATCH 47/49] fix: write a user-defined type named like a built-in
 one with its u! prefix

---
 src/textify/types.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index 5166176..6101097 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -361,6 +361,39 @@ impl<'a> Textify for Parameters<'a> {
     }
 }
 
+/// True if the grammar reads `name` as a built-in type, so that a user-defined
+/// type of that name needs its `u!` prefix to read back as itself.
+fn reads_as_builtin(name: &str) -> bool {
+    const SIMPLE: &[&str] = &[
+        "boolean",
+        "i8",
+        "i16",
+        "i32",
+        "i64",
+        "fp32",
+        "fp64",
+        "string",
+        "binary",
+        "timestamp_tz",
+        "timestamp",
+        "date",
+        "time",
+        "interval_year",
+        "uuid",
+    ];
+    // Compound type names are matched case-insensitively.
+    const COMPOUND: &[&str] = &[
+        "list",
+        "map",
+        "struct",
+        "precisiontimestamptz",
+        "precisiontimestamp",
+        "precisiontime",
+        "interval_day",
+    ];
+    SIMPLE.contains(&name) || COMPOUND.iter().any(|c| c.eq_ignore_ascii_case(name))
+}
+
 impl Textify for ptype::UserDefined {
     fn name() -> &'static str {
         "UserDefined"
@@ -378,6 +411,11 @@ impl Textify for ptype::UserDefined {
                 .collect();
             let params = Parameters(&param_vec);
 
+            if let MaybeToken(Ok(name)) = &name_and_anchor.name
+                && reads_as_builtin(name.full())
+            {
+                write!(w, "u!")?;
+            }
             write!(
                 w,
                 "{name_and_anchor}{null}{var}{params}",
-- 
2.43.0


From 2f759e4fa5b5116a8c894fcd9ed5e1412c681620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 48/49] fix: extension output columns named true, false or null
 are told apart from literals

---
 src/parser/expression_grammar.pest | 2 +-
 src/textify/extensions.rs          | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 855ed41..d47e3d5 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -411,7 +411,7 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
 // A named column must span its whole item: a call such as add:i64_i64($0):i64
 // starts like one.
-extension_column  = { named_column ~ &(sp ~ ("," | "]")) | reference | expression }
+extension_column  = { !((boolean | null) ~ ":") ~ named_column ~ &(sp ~ ("," | "]")) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 2ce70b6..80e7a6c 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -78,7 +78,12 @@ impl Textify for ExtensionColumn {
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
             ExtensionColumn::Named { name, r#type: ty } => {
-                write!(w, "{}:{}", Name(name), ctx.display(ty))
+                // Unquoted, these would be typed literals.
+                if matches!(name.as_str(), "true" | "false" | "null") {
+                    write!(w, "\"{name}\":{}", ctx.display(ty))
+                } else {
+                    write!(w, "{}:{}", Name(name), ctx.display(ty))
+                }
             }
             ExtensionColumn::Expr(expr) => expr.textify(ctx, w),
         }
-- 
2.43.0


From c321709664cfb5ce1dc06e98464d4e05b81f68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 49/49] fix: a call of a function named true, false or null can
 be an extension argument

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index d47e3d5..32c6e09 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -385,7 +385,8 @@ extension_arguments = { extension_argument ~ (sp ~ "," ~ sp ~ extension_argument
 // Ascribed literals (for example, 2:i16 or '2024-01-01':date) fall through to
 // expression parsing so their Substrait type information is preserved. Bare
 // null is a parameter value; ascribed null falls through to expression parsing.
-parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":") }
+// A call of a function named null, true or false is an expression, too.
+parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(sp ~ (":" | "#" | "@" | "(")) }
 
 // Tuples follow the Python/Rust trailing-comma convention to disambiguate from parenthesised
 // expressions.
-- 
2.43.0

