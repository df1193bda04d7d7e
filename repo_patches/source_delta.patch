From c9e4dc7f6eff4c6d7fb5b7a03e55c0e50f8ae29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:11 +0000
Subject: [PATCH 01/31] fix: reject unsupported types with a parse error
 instead of panicking

u8..u64 were accepted by the grammar but hit unreachable!(), map/struct types and
integer/name type parameters hit unimplemented!().
---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..009179a 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,11 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            _ => Err(MessageParseError::invalid(
+                Self::message(),
+                inner.as_span(),
+                format!("Unsupported type parameter: {}", inner.as_str()),
+            )),
         }
     }
 }
@@ -193,7 +197,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(MessageParseError::invalid(
+            Type::message(),
+            inner.as_span(),
+            format!("Unsupported type: {}", inner.as_str()),
+        )),
     }
 }
 
-- 
2.43.0


From 48217c71383d0c111ef0cf195c51223737f265e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:47 +0000
Subject: [PATCH 02/31] fix: an early parse error no longer panics in
 RuleIter's destructor

RuleIter's Drop asserted that all pairs were consumed, so returning an error from
the middle of a rule (e.g. a bad type in the middle of a parameter list) panicked.
---
 src/parser/common.rs      | 28 +++++-----------------------
 src/parser/expressions.rs |  3 ---
 src/parser/relations.rs   |  3 ---
 3 files changed, 5 insertions(+), 29 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..63119f1 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -285,8 +280,9 @@ impl<'a> RuleIter<'a> {
         T::parse_pair(extensions, pair)
     }
 
+    /// Assert that every pair was consumed. Called on the success path only: an
+    /// early error return may legitimately leave pairs unread.
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +294,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..fff2ee3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -832,9 +832,6 @@ impl ScopedParsePair for ScalarFunction {
         let span = pair.as_span();
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Drain the iterator into raw pairs before any fallible parsing, so an
-        // early return doesn't trip the RuleIter drop guard with pairs still
-        // pending.
         let reference_pair = iter.pop(Rule::function_reference);
         let args_pair = iter.pop(Rule::argument_list);
         let type_pair = iter.pop(Rule::r#type);
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..294f9dd 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -1087,9 +1087,6 @@ impl RelationParsePair for FetchRel {
         let input = expect_one_child(Self::message(), &pair, input_children)?;
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Extract all pairs before any validation: RuleIter's Drop panics on
-        // incomplete consumption, so we must exhaust the iterator before any
-        // early return. Validation runs after iter.done() below.
         let (limit_pair, offset_pair) = match iter.try_pop(Rule::fetch_named_arg_list) {
             None => {
                 iter.pop(Rule::empty);
-- 
2.43.0


From 981975de7ece90613a1de97feca7bda59f6447c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 03/31] fix: trailing input in an extension declaration is a
 parse error, not a panic

---
 src/parser/common.rs     | 30 +++++++++++++++++++++++++-----
 src/parser/extensions.rs | 11 +++--------
 src/parser/mod.rs        |  2 +-
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 63119f1..f697654 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -80,6 +80,30 @@ impl fmt::Display for ErrorKind {
     }
 }
 
+/// Parse the whole of `input` as one `rule`. Input left over after the rule has
+/// matched is a syntax error, not something to drop.
+pub(crate) fn parse_whole<'a>(
+    rule: Rule,
+    input: &'a str,
+    message: &'static str,
+) -> Result<Pair<'a, Rule>, MessageParseError> {
+    let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(rule, input)
+        .map_err(|e| MessageParseError::new(message, ErrorKind::Syntax, Box::new(e)))?;
+    let pair = pairs.next().unwrap();
+    assert_eq!(pairs.next(), None);
+
+    let end = pair.as_span().end();
+    if end != input.len() {
+        let rest = Span::new(input, end, input.len()).expect("end of a span is a char boundary");
+        return Err(MessageParseError::invalid(
+            message,
+            rest,
+            "unexpected trailing input",
+        ));
+    }
+    Ok(pair)
+}
+
 pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     let mut pairs = pair.into_inner();
     let pair = pairs.next().unwrap();
@@ -168,11 +192,7 @@ pub(crate) trait ParsePair: Sized {
     fn parse_pair(pair: Pair<Rule>) -> Self;
 
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
-        let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
-            .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
-        assert_eq!(pairs.as_str(), s);
-        let pair = pairs.next().unwrap();
-        assert_eq!(pairs.next(), None);
+        let pair = parse_whole(Self::rule(), s, Self::message())?;
         Ok(Self::parse_pair(pair))
     }
 }
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..233a17d 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -9,8 +9,8 @@ use substrait::proto::{
 use thiserror::Error;
 
 use super::{
-    ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_whole, unescape_string,
+    unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -216,12 +216,7 @@ impl FromStr for URNExtensionDeclaration {
 
 impl SimpleExtensionDeclaration {
     fn parse_from_kind(s: &str, kind: ExtensionKind) -> Result<Self, MessageParseError> {
-        let mut pairs = <ExpressionParser as pest::Parser<Rule>>::parse(Rule::simple_extension, s)
-            .map_err(|e| {
-                MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
-            })?;
-        assert_eq!(pairs.as_str(), s);
-        let pair = pairs.next().unwrap();
+        let pair = parse_whole(Rule::simple_extension, s, "SimpleExtensionDeclaration")?;
         let mut iter = RuleIter::from(pair.into_inner());
 
         let anchor = unwrap_single_pair(iter.pop(Rule::anchor))
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..b2430bf 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, parse_whole, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From 51a9a94a6a2d0d9ea84df435cf573bd9ebfd6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 04/31] fix: out-of-range integers are parse errors instead of
 panics or truncation

Anchors, field references, integer literals and extension arguments that do not
fit their protobuf field panicked; i8/i16/i32 literals were silently truncated.
---
 src/parser/common.rs      | 27 +++++++++++++++++++++++++++
 src/parser/expressions.rs | 16 +++++++++++++---
 src/parser/mod.rs         |  3 ++-
 src/parser/structural.rs  |  8 +++++++-
 4 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index f697654..67ec9ed 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -101,9 +101,36 @@ pub(crate) fn parse_whole<'a>(
             "unexpected trailing input",
         ));
     }
+    check_integers(&pair, message)?;
     Ok(pair)
 }
 
+/// Check that every integer under `pair` fits the protobuf field that will hold
+/// it, so that converting the pairs afterwards cannot fail: anchors are `u32`,
+/// field references `i32`, and every other integer at most an `i64`.
+pub(crate) fn check_integers(
+    pair: &Pair<Rule>,
+    message: &'static str,
+) -> Result<(), MessageParseError> {
+    for pair in pair.clone().into_inner().flatten() {
+        let digits = || unwrap_single_pair(pair.clone()).as_str().to_string();
+        let fits = match pair.as_rule() {
+            Rule::anchor | Rule::urn_anchor => digits().parse::<u32>().is_ok(),
+            Rule::reference => digits().parse::<i32>().is_ok(),
+            Rule::integer => pair.as_str().parse::<i64>().is_ok(),
+            _ => true,
+        };
+        if !fits {
+            return Err(MessageParseError::invalid(
+                message,
+                pair.as_span(),
+                format!("integer out of range: {}", pair.as_str()),
+            ));
+        }
+    }
+    Ok(())
+}
+
 pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     let mut pairs = pair.into_inner();
     let pair = pairs.next().unwrap();
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index fff2ee3..7aebeee 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -98,21 +98,31 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
+    // The i8, i16 and i32 literals are all stored in an i32 field.
+    let to_i32 = || {
+        i32::try_from(parsed_value).map_err(|_| {
+            MessageParseError::invalid(
+                "int_literal_type",
+                value.as_span(),
+                format!("integer out of range for its type: {parsed_value}"),
+            )
+        })
+    };
 
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(to_i32()?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(to_i32()?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(to_i32()?),
             i.nullability,
             i.type_variation_reference,
         ),
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b2430bf..8c2c948 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, parse_whole, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_integers, iter_pairs, parse_whole, sort_direction_from_str, unescape_string,
+    unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..ecd6e99 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -26,7 +26,9 @@ use crate::parser::extensions::{
 use crate::parser::relations::{
     ExtensionReadRel, RelationParsingContext, VirtualReadRel, parse_set_relation_pair,
 };
-use crate::parser::{ErrorKind, ExpressionParser, RelationParsePair, Rule, unwrap_single_pair};
+use crate::parser::{
+    ErrorKind, ExpressionParser, RelationParsePair, Rule, check_integers, unwrap_single_pair,
+};
 
 pub const PLAN_HEADER: &str = "=== Plan";
 pub const VERSION_HEADER: &str = "=== Version";
@@ -108,6 +110,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
+        check_integers(&outer, "planNode")
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
         let inner = unwrap_single_pair(outer);
 
         Ok(match inner.as_rule() {
@@ -139,6 +143,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
+        check_integers(&outer, "top_level_relation")
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         // top_level_relation is either root_relation or planNode.
         // If planNode, unwrap one more level to obtain the specific relation rule.
-- 
2.43.0


From 85cb5780fc8842a851502af839be9ef682f16f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:52 +0000
Subject: [PATCH 05/31] fix: a user-defined type name may start with a simple
 type's name

---
 src/parser/expression_grammar.pest | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..b00d3a0 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -78,8 +78,9 @@ nullability = { ("?" | "⁉")? }
 
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
+// The name must end here: "i8" is a simple type, but "i8_t" is a user-defined one.
 simple_type_name = {
-    "boolean"
+    ("boolean"
   | "i8"
   | "i16"
   | "i32"
@@ -93,7 +94,8 @@ simple_type_name = {
   | "date"
   | "time"
   | "interval_year"
-  | "uuid"
+  | "uuid")
+  ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // A simple native type expression, composed of a name and optional nullability.
-- 
2.43.0


From eebbb107d9fa9d4adc0174d8ed7bb49ba6f27a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:16 +0000
Subject: [PATCH 06/31] fix: strings and quoted names with unprintable
 characters survive parsing

Text output escapes them as \0 and \u{..}, which the parser took literally.
---
 src/parser/common.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 67ec9ed..7697fee 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -192,6 +192,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    'u' => match unicode_escape(chars.as_str()) {
+                        Some((unescaped, len)) => {
+                            result.push(unescaped);
+                            chars = chars.as_str()[len..].chars();
+                        }
+                        None => result.push(next),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -203,6 +211,18 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Decode the `{XXXX}` part of a `\u{XXXX}` escape at the start of `s`, as
+/// written by [`str::escape_debug`]. Returns the character and the length of
+/// the decoded part, or `None` if `s` does not start with a valid one.
+fn unicode_escape(s: &str) -> Option<(char, usize)> {
+    let (hex, _) = s.strip_prefix('{')?.split_once('}')?;
+    if hex.is_empty() || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
+    let code = u32::from_str_radix(hex, 16).ok()?;
+    Some((char::from_u32(code)?, hex.len() + 2))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From 1bf0639b7e150857eb025e51bbe3c43c83cb791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:21 +0000
Subject: [PATCH 07/31] fix: extension arguments may start with true, false or
 null

'nullable=1' and 'true_positives($0):i64' were rejected because the boolean and
null tokens matched their first letters.
---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index b00d3a0..7bb8a98 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,9 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+// The keyword must end here: "nullable" and "true_positives" are identifiers.
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
-- 
2.43.0


From 3cfa04b3d9d016ccb28b667109b657567d61aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:26 +0000
Subject: [PATCH 08/31] fix: an aggregate can group by a cast expression

The parenthesised operand of the first cast was taken for a grouping set.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 7bb8a98..66f7610 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -323,7 +323,8 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 
 aggregate_group_by = { grouping_set_list | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
-grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
+// Not followed by "::": "($0)::i64" is a cast expression to group by.
+grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")" ~ !(sp ~ "::")) | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
-- 
2.43.0


From 2d5fe845327766e4be30efb564359e9c7df12951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:43 +0000
Subject: [PATCH 09/31] fix: Fetch limits and offsets may carry a literal type

'limit=10:i32' is what the formatter prints for a count expression of type i32.
---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 66f7610..3051bcd 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -341,7 +341,7 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+fetch_value          =  { integer ~ !("." | ":") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 1e42fb7ff353125ff9874afc38fd1f54e4856213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:22 +0000
Subject: [PATCH 10/31] fix: a string literal keeps its nullability and its
 type

'x':string? became a required string, and 'x':uuid or 'x':i64 silently became a
string; the latter are now rejected, as for integer, float and boolean literals.
---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7aebeee..fd97511 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -343,14 +343,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        _ => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {kind:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From e3e600ccf63512992b54fa9293c22d21a98daaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:59 +0000
Subject: [PATCH 11/31] fix: whole floating-point numbers keep their fractional
 part

1.0 was printed as 1, which parses as an i64 (or not at all).
---
 src/textify/expressions.rs | 15 +++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..1aa27e3 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -301,6 +301,17 @@ fn write_interval_day_to_second_literal<S: Scope, W: fmt::Write>(
     write!(w, "'{}'", escaped(&duration))
 }
 
+/// Write a floating-point number. Whole numbers get a fractional part, as they
+/// would read as integers without one.
+pub(crate) fn write_float<W: fmt::Write>(f: &impl fmt::Display, w: &mut W) -> fmt::Result {
+    let text = f.to_string();
+    write!(w, "{text}")?;
+    if text.bytes().all(|b| b == b'-' || b.is_ascii_digit()) {
+        write!(w, ".0")?;
+    }
+    Ok(())
+}
+
 /// Write just the value portion of a literal, with no type suffix or
 /// nullability marker.
 ///
@@ -314,8 +325,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => write_float(f, w),
+        LiteralType::Fp64(f) => write_float(f, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..2ed51c9 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::write_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => write_float(f, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From c36fb45b425e20f374d62837659c6da0216e305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:43 +0000
Subject: [PATCH 12/31] fix: formatting an out-of-range date reports an error
 instead of panicking

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 1aa27e3..73e146d 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -115,11 +115,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string. `None` if the date is outside
+/// chrono's representable range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -329,9 +330,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write_float(f, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    "value is out of range for Date",
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From 18503f1853a81975999cd33dddb83307baec3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:48 +0000
Subject: [PATCH 13/31] fix: a leap second at the end of the day is not a valid
 time literal

'23:59:60':time was stored as 24:00:00, which cannot be written back.
---
 src/parser/expressions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index fd97511..a5e6a23 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -555,6 +555,14 @@ fn parse_time_to_precision_units(
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
+            // chrono reads a 60th second, which may lie outside the day.
+            if duration >= chrono::Duration::days(1) {
+                return Err(MessageParseError::invalid(
+                    "time_parse_range",
+                    span,
+                    format!("Time '{time_str}' is not within a single day"),
+                ));
+            }
             return duration_to_precision_units(duration, precision, literal_kind, span);
         }
     }
-- 
2.43.0


From 55c04e983d0d9f1a47ba953317c48c047eaca574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:44 +0000
Subject: [PATCH 14/31] fix: fractional digits below a nanosecond are rejected,
 not dropped

---
 src/parser/expressions.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a5e6a23..3af60ec 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -501,6 +501,28 @@ fn check_supported_precision(
     }
 }
 
+/// chrono ignores fractional digits after the ninth; reject them unless they
+/// are zero, rather than dropping part of the value.
+fn check_fraction_digits(
+    text: &str,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let Some((_, fraction)) = text.rsplit_once('.') else {
+        return Ok(());
+    };
+    if fraction.bytes().skip(9).any(|b| b != b'0') {
+        return Err(MessageParseError::invalid(
+            "precision_literal_fractional_truncated",
+            span,
+            format!(
+                "value has a fractional component finer than nanoseconds for a {literal_kind} literal"
+            ),
+        ));
+    }
+    Ok(())
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -509,6 +531,7 @@ fn parse_timestamp_to_precision_units(
     span: pest::Span,
 ) -> Result<i64, MessageParseError> {
     let precision = check_supported_precision(precision, literal_kind, span)?;
+    check_fraction_digits(timestamp_str, literal_kind, span)?;
 
     // Try multiple timestamp formats for flexibility
     let formats = [
@@ -547,6 +570,7 @@ fn parse_time_to_precision_units(
     span: pest::Span,
 ) -> Result<i64, MessageParseError> {
     let precision = check_supported_precision(precision, literal_kind, span)?;
+    check_fraction_digits(time_str, literal_kind, span)?;
 
     // Try multiple time formats for flexibility
     let formats = ["%H:%M:%S%.f", "%H:%M:%S"];
-- 
2.43.0


From 9aa3a64e40a9d70977429c197ebb9831fdb08211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:08 +0000
Subject: [PATCH 15/31] fix: quote extension and argument names that are not
 identifiers

An extension relation whose name is written quoted was looked up with its
quotes, and extension or argument names that need quotes were printed bare,
giving text that does not parse.
---
 src/parser/extensions.rs  | 15 ++++-----------
 src/textify/addenda.rs    |  2 ++
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 233a17d..326c8af 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -468,19 +468,12 @@ impl ScopedParsePair for ExtensionInvocation {
         let mut iter = pair.into_inner();
 
         // Parse extension name to determine relation type and custom name
-        let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
-
-        // Extract the relation type and custom name from the extension name
+        let mut name_iter = iter.next().unwrap().into_inner(); // Grammar guarantees extension_name exists
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let relation_type_pair = name_iter.next().unwrap(); // Grammar guarantees extension_type exists
+        let custom_name = Name::parse_pair(name_iter.next().unwrap()).0.to_string();
 
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        let relation_kind = ExtensionRelationKind::from_str(relation_type_pair.as_str()).unwrap();
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..d2ec46a 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,6 +161,7 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
+                    let name = Name(name);
                     write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
                 }
             }
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 2ed51c9..c298a8d 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From e64d54a469c3ac4bbbee1a65a0105a16d844bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 16/31] fix: reject duplicate named extension arguments

The later value silently replaced the earlier one.
---
 src/parser/extensions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 326c8af..fdd9500 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -581,9 +581,16 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
-                    args.insert(key, val);
+                    if args.insert(key, val).is_some() {
+                        return Err(MessageParseError::invalid(
+                            "extension_named_argument",
+                            name_span,
+                            "duplicate named argument",
+                        ));
+                    }
                 }
             }
             Rule::empty => {}
-- 
2.43.0


From c97cad55e8f6d2943f2a59c4ef3d69e6c64b5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:57 +0000
Subject: [PATCH 17/31] fix: an unknown first line is reported with its line
 number

The error for text before the first section header carried the line's
indentation depth where its line number belongs.
---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index ecd6e99..72657f6 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1061,8 +1061,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 0abae5c2e3896b1d708c66a8d8dc03737f1ed513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:02 +0000
Subject: [PATCH 18/31] fix: a blank line does not start a multi-line chunk

A '- ' line at depth 1 after a blank line was merged into the blank line's
chunk, so its error named the blank line instead.
---
 src/parser/structural.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 72657f6..3a2bfc3 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1008,7 +1008,8 @@ impl<'a> Parser<'a> {
             .expect("a non-exhausted cursor always yields a line");
         c.merge(first);
 
-        if matches!(self.state, State::Plan) {
+        // A blank line separates chunks, so nothing continues it.
+        if matches!(self.state, State::Plan) && !first.as_str().trim().is_empty() {
             let base = IndentedLine::from(first.as_str()).0;
             while let Some(line) = c.peek_line() {
                 let IndentedLine(depth, body) = IndentedLine::from(line.as_str());
-- 
2.43.0


From 02ff193457be62fd6ac0088eacec45cef5a10f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:33 +0000
Subject: [PATCH 19/31] fix: reject a Project reference past the input fields

`Project[$2, 1]` over two fields silently selected the computed expression.
---
 src/parser/relations.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 294f9dd..faadd5e 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -600,9 +600,11 @@ impl RelationParsePair for ProjectRel {
         assert_eq!(pair.as_rule(), Self::rule());
         let input = expect_one_child(Self::message(), &pair, input_children)?;
 
+        let span = pair.as_span();
         let arguments_pair = unwrap_single_pair(pair);
 
         let mut expressions = Vec::new();
+        let mut references = Vec::new();
         let mut output_mapping = Vec::new();
 
         for arg in arguments_pair.into_inner() {
@@ -610,6 +612,7 @@ impl RelationParsePair for ProjectRel {
             match inner_arg.as_rule() {
                 Rule::reference => {
                     let field_index = FieldIndex::parse_pair(inner_arg);
+                    references.push(field_index.0);
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -624,6 +627,17 @@ impl RelationParsePair for ProjectRel {
 
         let output_count = output_mapping.len();
         let direct_count = input_field_count + expressions.len();
+        // A reference past the input fields must not select a computed expression.
+        if let Some(r) = references
+            .iter()
+            .find(|r| (input_field_count..direct_count).contains(&(**r as usize)))
+        {
+            return Err(MessageParseError::invalid(
+                Self::message(),
+                span,
+                format!("reference ${r} is past the {input_field_count} input fields"),
+            ));
+        }
         let emit = make_emit(output_mapping, direct_count);
         let common = RelCommon {
             emit_kind: Some(emit),
-- 
2.43.0


From 2a5a27a0c4418d19d0c2f3e5176251446ef308d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:33 +0000
Subject: [PATCH 20/31] fix: parse a Sort without sort fields

The formatter prints it as `Sort[_ => ...]`, which did not parse.
---
 src/parser/expression_grammar.pest | 3 ++-
 src/parser/relations.rs            | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3051bcd..cf4f135 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -334,8 +334,9 @@ aggregate_output      = { (expression ~ (sp ~ "," ~ sp ~ expression)*)? }
 empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
+// (_ or nothing when there are no sort fields)
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { empty | (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
 
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index faadd5e..7697d4a 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -946,6 +946,9 @@ impl RelationParsePair for SortRel {
         let references_pair = iter.pop(Rule::reference_list);
         let mut sorts = Vec::new();
         for sort_field_pair in sort_field_list_pair.into_inner() {
+            if sort_field_pair.as_rule() == Rule::empty {
+                continue;
+            }
             let sort_field = SortField::parse_pair(extensions, sort_field_pair)?;
             sorts.push(sort_field);
         }
-- 
2.43.0


From 3152048f068fb710a42caaf739f0489345c7cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 21/31] fix: show deprecated grouping expressions when the
 first set is empty

An AggregateRel in the deprecated form whose first grouping set is empty
printed every set as `_` and its grouping outputs as errors.
---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..aa389e2 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -728,8 +728,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|g| !g.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From bf1dc5046a5744405fe14a35180b9def7c70c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 22/31] fix: parse arguments named null, true or false

They were printed unquoted and then read as literals.
---
 src/parser/expression_grammar.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index cf4f135..ae253de 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -379,7 +379,9 @@ extension_type = { "ExtensionLeaf" | "ExtensionSingle" | "ExtensionMulti" }
 
 extension_args = { (empty | (extension_arguments ~ (sp ~ "," ~ sp ~ extension_named_arguments)?) | extension_named_arguments)? }
 // Positional arguments (expressions, literals, references, enums, tuples)
-extension_arguments = { extension_argument ~ (sp ~ "," ~ sp ~ extension_argument)* }
+extension_arguments = { !named_argument_start ~ extension_argument ~ (sp ~ "," ~ sp ~ !named_argument_start ~ extension_argument)* }
+// "null" and "true" are names in `null=1, true=2`, and literals in `null, true => `.
+named_argument_start = _{ name ~ sp ~ "=" ~ !">" }
 
 // Parameter literals are direct scalar values without type ascriptions.
 // Ascribed literals (for example, 2:i16 or '2024-01-01':date) fall through to
-- 
2.43.0


From 9521d5c9c8d4223fcbe475c9435d658dbd96824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:37 +0000
Subject: [PATCH 23/31] fix: show an aggregate measure without a function as an
 error

---
 src/textify/rels.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index aa389e2..7d60c3d 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -786,9 +786,10 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            let measure = m.measure.as_ref().map(Value::AggregateFunction);
+            all_outputs.push(Value::expect(measure, || {
+                PlanError::invalid("AggregateRel", Some("measures"), "Measure is None")
+            }));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 5002f3232f4533e938d32d9110fafa9339339bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 24/31] fix: show a missing relation input as an error

---
 src/textify/rels.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 7d60c3d..1dcd75d 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -349,12 +349,15 @@ impl Relation<'_> {
     }
 
     /// Write each child relation at one indent level deeper than `ctx`.
-    /// Each child is preceded by a newline.
+    /// Each child is preceded by a newline; a missing one is an error token.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => write_missing_input(&self.name, &child_scope, w)?,
+            }
         }
         Ok(())
     }
@@ -832,6 +835,17 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// Write an error token in place of a relation's missing input.
+fn write_missing_input<S: Scope, W: fmt::Write>(name: &str, ctx: &S, w: &mut W) -> fmt::Result {
+    let indent = ctx.indent();
+    let token = ctx.failure(PlanError::invalid(
+        "Rel",
+        None::<&str>,
+        format!("{name} is missing an input"),
+    ));
+    write!(w, "{indent}{token}[]")
+}
+
 impl Textify for RelRoot {
     fn name() -> &'static str {
         "RelRoot"
@@ -847,12 +861,11 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => write_missing_input("Root", &child_scope, w),
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From 355523086f31ae525c316271d59df947474e002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:20 +0000
Subject: [PATCH 25/31] fix: report filters and projections of reads that the
 text cannot show

---
 src/textify/rels.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 1dcd75d..ab9f435 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -393,7 +393,14 @@ impl<'a> Relation<'a> {
                 };
                 Relation {
                     name: Cow::Borrowed("Read"),
-                    arguments: Some(RelationArgs::inline(vec![table_name], vec![])),
+                    arguments: Some(RelationArgs::inline(
+                        vec![table_name],
+                        unsupported_read_args(&[
+                            ("filter", rel.filter.is_some()),
+                            ("best_effort_filter", rel.best_effort_filter.is_some()),
+                            ("projection", rel.projection.is_some()),
+                        ]),
+                    )),
                     columns,
                     emit,
                     output_syntax,
@@ -418,6 +425,10 @@ impl<'a> Relation<'a> {
                         value: Value::Expression(filter.as_ref()),
                     });
                 }
+                named.extend(unsupported_read_args(&[
+                    ("best_effort_filter", rel.best_effort_filter.is_some()),
+                    ("projection", rel.projection.is_some()),
+                ]));
                 if positional.is_empty() && !named.is_empty() {
                     positional.push(Value::EmptyGroup);
                 }
@@ -490,6 +501,23 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// Error tokens for the given fields of a [`ReadRel`] that are present but have
+/// no text.
+fn unsupported_read_args(fields: &[(&'static str, bool)]) -> Vec<NamedArg<'static>> {
+    fields
+        .iter()
+        .filter(|(_, present)| *present)
+        .map(|(field, _)| NamedArg {
+            name: Cow::Borrowed(*field),
+            value: Value::Missing(PlanError::unimplemented(
+                "ReadRel",
+                Some(*field),
+                format!("{field} is not supported for this read in the text format"),
+            )),
+        })
+        .collect()
+}
+
 fn read_columns<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
     match rel.base_schema {
         Some(ref schema) => schema_to_values(schema),
-- 
2.43.0


From 9485e4dd71e1da6d951561206c744fcc38364506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:38 +0000
Subject: [PATCH 26/31] fix: report measure filters, which the text cannot show

---
 src/textify/rels.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index ab9f435..8414ebe 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -817,10 +817,19 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            let measure = m.measure.as_ref().map(Value::AggregateFunction);
-            all_outputs.push(Value::expect(measure, || {
-                PlanError::invalid("AggregateRel", Some("measures"), "Measure is None")
-            }));
+            all_outputs.push(match (&m.measure, &m.filter) {
+                (Some(function), None) => Value::AggregateFunction(function),
+                (Some(_), Some(_)) => Value::Missing(PlanError::unimplemented(
+                    "AggregateRel",
+                    Some("measures.filter"),
+                    "Measure filters are not supported in the text format",
+                )),
+                (None, _) => Value::Missing(PlanError::invalid(
+                    "AggregateRel",
+                    Some("measures"),
+                    "Measure is None",
+                )),
+            });
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 11ce9416b01676836f1af391ffabdcccf0737775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:16 +0000
Subject: [PATCH 27/31] fix: report distinct, partial and ordered aggregation,
 which the text cannot show

---
 src/textify/expressions.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 73e146d..52551a2 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use chrono::{DateTime, NaiveDate, NaiveTime};
 use expr::RexType;
+use substrait::proto::aggregate_function::AggregationInvocation;
 use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
 use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
 use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType};
@@ -10,7 +11,8 @@ use substrait::proto::expression::{
 };
 use substrait::proto::function_argument::ArgType;
 use substrait::proto::{
-    AggregateFunction, Expression, FunctionArgument, FunctionOption, expression as expr,
+    AggregateFunction, AggregationPhase, Expression, FunctionArgument, FunctionOption,
+    expression as expr,
 };
 
 use super::{PlanError, Scope, Textify, Visibility};
@@ -944,7 +946,36 @@ impl Textify for AggregateFunction {
         let invocation = ctx.display(&invocation);
         let output_type = ctx.display(&output_type);
 
-        write!(w, "{invocation}{output_type}")
+        // Everything but plain invocation of the whole aggregate has no text.
+        let plain_invocation = [
+            AggregationInvocation::Unspecified,
+            AggregationInvocation::All,
+        ]
+        .iter()
+        .any(|i| *i as i32 == self.invocation);
+        let plain_phase = [
+            AggregationPhase::Unspecified,
+            AggregationPhase::InitialToResult,
+        ]
+        .iter()
+        .any(|p| *p as i32 == self.phase);
+
+        write!(w, "{invocation}")?;
+        for (field, plain) in [
+            ("sorts", self.sorts.is_empty()),
+            ("invocation", plain_invocation),
+            ("phase", plain_phase),
+        ] {
+            if !plain {
+                let token = ctx.failure(PlanError::unimplemented(
+                    "AggregateFunction",
+                    Some(field),
+                    format!("{field} is not supported in the text format"),
+                ));
+                write!(w, "{token}")?;
+            }
+        }
+        write!(w, "{output_type}")
     }
 }
 
-- 
2.43.0


From 1c207620bb0aade5eb7f093924550f689dd2e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 28/31] fix: report nested field references, which were printed
 as the outer field

---
 src/textify/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 52551a2..52a0a89 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -629,6 +629,15 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_some() => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "StructField",
+                    Some("child"),
+                    "Nested field references are not supported in the text format",
+                ))
+            ),
             Some(reference_segment::ReferenceType::StructField(s)) => {
                 write!(w, "{}", Reference(s.field))
             }
-- 
2.43.0


From a5122cfdefe4bce040efd67519abc90c027a9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:01 +0000
Subject: [PATCH 29/31] fix: parse the Clustered sort direction, which was
 printed but not accepted

---
 GRAMMAR.md                         | 4 ++--
 src/parser/common.rs               | 1 +
 src/parser/expression_grammar.pest | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/GRAMMAR.md b/GRAMMAR.md
index 8e27556..e4921cd 100644
--- a/GRAMMAR.md
+++ b/GRAMMAR.md
@@ -216,7 +216,7 @@ Enum fields in arguments are represented as &-prefixed variants (e.g., `&AscNull
 
 #### Examples
 
-- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast` - sort directions
+- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast`, `&Clustered` - sort directions
 
 ### Scalar values
 
@@ -1098,7 +1098,7 @@ Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => $0, $1]
 sort_relation := "Sort" "[" sort_fields "=>" reference_list "]"
 sort_fields := sort_field ("," sort_field)*
 sort_field := "(" expression "," sort_direction ")"
-sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast"
+sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast" / "&Clustered"
 ```
 
 #### Components
diff --git a/src/parser/common.rs b/src/parser/common.rs
index 7697fee..f3f67d1 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -426,6 +426,7 @@ pub(crate) fn sort_direction_from_str(
         "AscNullsLast" => Ok(SortDirection::AscNullsLast),
         "DescNullsFirst" => Ok(SortDirection::DescNullsFirst),
         "DescNullsLast" => Ok(SortDirection::DescNullsLast),
+        "Clustered" => Ok(SortDirection::Clustered),
         other => Err(MessageParseError::invalid(
             "SortDirection",
             span,
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index ae253de..97769f3 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -338,7 +338,7 @@ empty = { "_" }
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
 sort_field_list = { empty | (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
-sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
+sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-- 
2.43.0


From d3aa7cb61fc5ac5df8a51fa5050f4923df986b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:44 +0000
Subject: [PATCH 30/31] fix: accept white space at the end of a line of a
 multi-line relation, as everywhere else

---
 src/parser/expression_grammar.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 97769f3..32acd52 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -280,7 +280,9 @@ extension_read_relation = { "Read:Extension" ~ "[" ~ named_column_list ~ "]" }
 //
 // TODO: reuse these for other bracketed relations (Project, Aggregate, ...).
 // A continuation line transition: newline, followed by spaces and "- "
-relation_line_cont = _{ sp ~ NEWLINE ~ sp ~ "- " ~ sp }
+relation_line_cont = _{ line_end ~ sp ~ "- " ~ sp }
+// As at the end of any other line, trailing white space is allowed.
+line_end           = _{ (" " | "\t" | "\r")* ~ "\n" }
 // Continuation allowed after relation opening ("["), between arguments (after ","),
 // or before the columns (before "=>")
 relation_open      = _{ "[" ~ relation_line_cont? }
-- 
2.43.0


From 9ca008d597a2772be7bba5570966f8696f19543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:13 +0000
Subject: [PATCH 31/31] fix: reject JSON input with anything after the plan

---
 src/json.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..90f5ed3 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,10 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .and_then(|msg| deserializer.end().map(|()| msg))
+        .context("failed to parse JSON as substrait.Plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0

