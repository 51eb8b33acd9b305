From ccfb40933be902ee468c178eb27e913abfcc924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 01/17] fix: bind the label of a string literal

`x:"a"` accepted the label but generated no binding for it, so an action
using `x` failed to compile. A literal's value is `()`; bind that.
---
 peg-macros/translate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 326fa53..00e03b1 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -457,7 +457,14 @@ fn compile_expr_continuation(
 
     let result_pat = name_or_ignore(result_name);
     match e.expr {
-        LiteralExpr(ref s) => compile_literal_expr(s, continuation),
+        LiteralExpr(ref s) => {
+            // the value of a literal is `()`, but its label still has to be bound
+            let continuation = match result_name {
+                Some(name) => quote_spanned! { span => { let #name = (); #continuation } },
+                None => continuation,
+            };
+            compile_literal_expr(s, continuation)
+        }
 
         PatternExpr(ref pattern) => {
             let result_name = result_name
-- 
2.43.0


From b2046d681c75ea22b4c2da4763d47c89ac5eaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 02/17] fix: detect left recursion through the separator of a
 repeat

---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 0e2409a..2155d89 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -138,8 +138,14 @@ impl<'a> LeftRecursionVisitor<'a> {
                 true
             }
 
-            Repeat { ref inner, ref bound, .. } => {
+            Repeat { ref inner, ref bound, ref sep } => {
                 let inner_nullable = self.walk_expr(inner);
+
+                // the separator follows an element that may not have consumed anything
+                if let (true, Some(sep)) = (inner_nullable, sep) {
+                    self.walk_expr(sep);
+                }
+
                 inner_nullable | !bound.has_lower_bound()
             }
 
-- 
2.43.0


From 9885d5e40ecada7fdcc41ed76dae5f8b4fbe374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 03/17] fix: treat the empty string literal as nullable

---
 peg-macros/analysis.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 2155d89..1e8c131 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -1,4 +1,4 @@
-use proc_macro2::Span;
+use proc_macro2::{Literal, Span};
 use std::collections::HashMap;
 
 use crate::ast::*;
@@ -27,6 +27,11 @@ pub fn check<'a>(grammar: &'a Grammar) -> GrammarAnalysis<'a> {
     }
 }
 
+/// The empty string literal matches without consuming input
+fn is_empty_string(lit: &Literal) -> bool {
+    lit.to_string().trim_matches(|c| c == 'r' || c == '#') == "\"\""
+}
+
 /// Check for infinite loops in the form of left recursion.
 ///
 /// If a PEG expression recurses without first consuming input, it will
@@ -170,7 +175,8 @@ impl<'a> LeftRecursionVisitor<'a> {
                nullable
             }
 
-            | LiteralExpr(_)
+            LiteralExpr(ref lit) => is_empty_string(lit),
+
             | PatternExpr(_)
             | MethodExpr(_, _)
             | CustomExpr(_)
@@ -283,7 +289,8 @@ impl<'a> LoopNullabilityVisitor<'a> {
                 nullable
             }
 
-            | LiteralExpr(_)
+            LiteralExpr(ref lit) => is_empty_string(lit),
+
             | PatternExpr(_)
             | MethodExpr(_, _)
             | CustomExpr(_)
-- 
2.43.0


From e7a3ab8844e331a447313663db3d47fad5733488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 04/17] fix: a lower bound of 0 is no lower bound

---
 peg-macros/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peg-macros/ast.rs b/peg-macros/ast.rs
index d5f7e8a..d0fcecd 100644
--- a/peg-macros/ast.rs
+++ b/peg-macros/ast.rs
@@ -129,7 +129,8 @@ impl BoundedRepeat {
     pub fn has_lower_bound(&self) -> bool {
         match self {
             BoundedRepeat::None | BoundedRepeat::Both(None, _) => false,
-            BoundedRepeat::Plus | BoundedRepeat::Exact(_) | BoundedRepeat::Both(Some(_), _) => true
+            BoundedRepeat::Exact(n) | BoundedRepeat::Both(Some(n), _) => n.to_string() != "0",
+            BoundedRepeat::Plus => true,
         }
     }
 
-- 
2.43.0


From 84cc7a738574518dd2523ade6de4dc54f7b2fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 05/17] fix: detect nullable loops in the arguments of a rule

---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 1e8c131..703cbc9 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -233,7 +233,13 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
-            RuleExpr(ref rule_ident, _, _) => {
+            RuleExpr(ref rule_ident, _, ref args) => {
+                for arg in args {
+                    if let RuleArg::Peg(expr) = arg {
+                        self.walk_expr(expr);
+                    }
+                }
+
                 let name = rule_ident.to_string();
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
-- 
2.43.0


From 245df56a2ada3938e6f7b1b334731a32da4eaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 06/17] fix: a rule parameter hides the rule of the same name
 from the loop checks

---
 peg-macros/analysis.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 703cbc9..bc7dc6e 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -82,6 +82,14 @@ impl<'a> LeftRecursionVisitor<'a> {
         res
     }
 
+    /// Is `name` a parameter of the rule being walked?
+    fn is_param(&self, name: &str) -> bool {
+        self.stack
+            .last()
+            .and_then(|rule_name| self.rules.get(rule_name))
+            .map_or(false, |rule| rule.params.iter().any(|param| param.name == name))
+    }
+
     /// Walk the prefix of an expression that can be reached without consuming
     /// input.
     ///
@@ -94,7 +102,10 @@ impl<'a> LeftRecursionVisitor<'a> {
             RuleExpr(ref rule_ident, _, _) => {
                 let name = rule_ident.to_string();
 
-                if let Some(rule) = self.rules.get(&name) {
+                if self.is_param(&name) {
+                    // A parameter hides the rule of the same name
+                    false
+                } else if let Some(rule) = self.rules.get(&name) {
                     if let Some(loop_start) = self
                         .stack
                         .iter()
@@ -192,6 +203,7 @@ impl<'a> LeftRecursionVisitor<'a> {
 /// will loop infinitely.
 struct LoopNullabilityVisitor<'a> {
     rule_nullability: &'a HashMap<String, bool>,
+    params: &'a [RuleParam],
     errors: Vec<LoopNullabilityError>,
 }
 
@@ -210,10 +222,12 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn check(grammar: &'a Grammar, rule_nullability: &HashMap<String, bool>) -> Vec<LoopNullabilityError> {
         let mut visitor = LoopNullabilityVisitor {
             rule_nullability,
+            params: &[],
             errors: Vec::new(),
         };
 
         for rule in grammar.iter_rules() {
+            visitor.params = &rule.params;
             visitor.walk_expr(&rule.expr);
         }
 
@@ -241,6 +255,12 @@ impl<'a> LoopNullabilityVisitor<'a> {
                 }
 
                 let name = rule_ident.to_string();
+
+                if self.params.iter().any(|param| param.name == name) {
+                    // A parameter hides the rule of the same name
+                    return false;
+                }
+
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
 
-- 
2.43.0


From 4e71077f8fab347a1a7588309d7762759ad9d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 07/17] fix: detect precedence operators that can match without
 consuming input

---
 peg-macros/analysis.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index bc7dc6e..10d1940 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -301,14 +301,40 @@ impl<'a> LoopNullabilityVisitor<'a> {
 
             PrecedenceExpr { ref levels } => {
                 let mut nullable = false;
+                let mut nullable_infix = Vec::new();
 
                 for level in levels {
                     for operator in &level.operators {
-                        let mut operator_nullable = true;
+                        let is_marker = |element: &TaggedExpr| match element.expr.expr {
+                            MarkerExpr(_) => true,
+                            _ => false,
+                        };
+                        let mut elements_nullable = true;
                         for element in &operator.elements {
-                            operator_nullable &= self.walk_expr(&element.expr);
+                            elements_nullable &= is_marker(element) || self.walk_expr(&element.expr);
                         }
-                        nullable |= operator_nullable;
+                        if !elements_nullable {
+                            continue;
+                        }
+
+                        match (
+                            operator.elements.first().map_or(false, is_marker),
+                            operator.elements.last().map_or(false, is_marker),
+                        ) {
+                            (true, true) => nullable_infix.push(operator),
+                            // Postfix operators are applied in a loop, prefix operators recurse
+                            (true, false) | (false, true) => {
+                                self.errors.push(LoopNullabilityError { span: operator.span })
+                            }
+                            (false, false) => nullable |= !operator.elements.iter().any(is_marker),
+                        }
+                    }
+                }
+
+                // An infix operator can make progress by its right operand
+                if nullable {
+                    for operator in nullable_infix {
+                        self.errors.push(LoopNullabilityError { span: operator.span });
                     }
                 }
 
-- 
2.43.0


From 5572d9a6b85f134a79701f8188da751f3a242200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 08/17] fix: don't walk every rule again for each call in the
 left recursion check

---
 peg-macros/analysis.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 10d1940..d6be0ec 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -39,6 +39,10 @@ fn is_empty_string(lit: &Literal) -> bool {
 struct LeftRecursionVisitor<'a> {
     stack: Vec<String>,
     rules: &'a HashMap<String, &'a Rule>,
+    /// Nullability of rules that were walked without finding a recursion through
+    /// another rule, which don't have to be walked again for every call.
+    finished: HashMap<String, bool>,
+    recursions: usize,
     errors: Vec<LeftRecursionError>,
 }
 
@@ -60,6 +64,8 @@ impl<'a> LeftRecursionVisitor<'a> {
     fn check(grammar: &'a Grammar, rules: &HashMap<String, &'a Rule>) -> (HashMap<String, bool>, Vec<LeftRecursionError>) {
         let mut visitor = LeftRecursionVisitor {
             rules,
+            finished: HashMap::new(),
+            recursions: 0,
             errors: Vec::new(),
             stack: Vec::new(),
         };
@@ -113,6 +119,10 @@ impl<'a> LeftRecursionVisitor<'a> {
                     {
                         let mut recursive_loop = self.stack[loop_start..].to_vec();
                         recursive_loop.push(name.clone());
+                        match rule.cache {
+                            Some(Cache::Recursive) if recursive_loop.len() == 2 => (),
+                            _ => self.recursions += 1,
+                        }
                         match rule.cache {
                             None | Some(Cache::Simple) =>
                                 self.errors.push(LeftRecursionError {
@@ -124,7 +134,15 @@ impl<'a> LeftRecursionVisitor<'a> {
                         }
                         return false;
                     }
-                    self.walk_rule(rule)
+                    if let Some(nullable) = self.finished.get(&name) {
+                        return *nullable;
+                    }
+                    let recursions = self.recursions;
+                    let nullable = self.walk_rule(rule);
+                    if self.recursions == recursions {
+                        self.finished.insert(name, nullable);
+                    }
+                    nullable
                 } else {
                     // Missing rule would have already been reported
                    false
-- 
2.43.0


From c42e5f480e63d76d51beee03779bff7366ebfea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 09/17] fix: parse a call with type arguments that has no label

---
 peg-macros/grammar.rs      | 37 +++++++++++++++++++++++++++++++------
 peg-macros/grammar.rustpeg |  2 +-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index b77dbe3..56d6d33 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -2905,14 +2905,39 @@ pub mod peg {
                 let __seq_res = __parse_IDENT(__input, __state, __err_state, __pos);
                 match __seq_res {
                     ::peg::RuleResult::Matched(__pos, l) => {
-                        match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":") {
-                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                ::peg::RuleResult::Matched(__pos, (|| l)())
+                        let __seq_res = {
+                            __err_state.suppress_fail += 1;
+                            let __assert_res = match ::peg::ParseLiteral::parse_string_literal(
+                                __input, __pos, "::",
+                            ) {
+                                ::peg::RuleResult::Matched(__pos, __val) => {
+                                    ::peg::RuleResult::Matched(__pos, __val)
+                                }
+                                ::peg::RuleResult::Failed => {
+                                    __err_state.mark_failure(__pos, "\"::\"");
+                                    ::peg::RuleResult::Failed
+                                }
+                            };
+                            __err_state.suppress_fail -= 1;
+                            match __assert_res {
+                                ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()),
+                                ::peg::RuleResult::Matched(..) => ::peg::RuleResult::Failed,
                             }
-                            ::peg::RuleResult::Failed => {
-                                __err_state.mark_failure(__pos, "\":\"");
-                                ::peg::RuleResult::Failed
+                        };
+                        match __seq_res {
+                            ::peg::RuleResult::Matched(__pos, _) => {
+                                match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":")
+                                {
+                                    ::peg::RuleResult::Matched(__pos, __val) => {
+                                        ::peg::RuleResult::Matched(__pos, (|| l)())
+                                    }
+                                    ::peg::RuleResult::Failed => {
+                                        __err_state.mark_failure(__pos, "\":\"");
+                                        ::peg::RuleResult::Failed
+                                    }
+                                }
                             }
+                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
                     }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
diff --git a/peg-macros/grammar.rustpeg b/peg-macros/grammar.rustpeg
index e4dfd4d..eb083c1 100644
--- a/peg-macros/grammar.rustpeg
+++ b/peg-macros/grammar.rustpeg
@@ -113,7 +113,7 @@ rule sequence() -> SpannedExpr
     }
 
 rule labeled() -> TaggedExpr
-    = label:(l:IDENT() ":" {l})? expression:suffixed()
+    = label:(l:IDENT() !"::" ":" {l})? expression:suffixed()
         { TaggedExpr{ name: label, expr: expression } }
 
 rule suffixed() -> SpannedExpr
-- 
2.43.0


From 0f66aba575bb7e0fba9623653675d70cff1fe7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 10/17] fix: give expected!() a type where its value is not
 used

---
 peg-macros/translate.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 00e03b1..6f8509a 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -429,6 +429,15 @@ fn name_or_ignore(n: Option<&Ident>) -> TokenStream {
     }
 }
 
+/// Is the expression one that never matches, and whose value has no type of its own?
+fn is_fail(e: &SpannedExpr) -> bool {
+    match e.expr {
+        FailExpr(_) => true,
+        QuietExpr(ref e) => is_fail(e),
+        _ => false,
+    }
+}
+
 fn ordered_choice(span: Span, mut rs: impl DoubleEndedIterator<Item = TokenStream>) -> TokenStream {
     rs.next_back().map(|last| rs.rfold(last, |fallback, preferred| {
         quote_spanned! { span => {
@@ -649,7 +658,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             span,
             exprs
                 .iter()
-                .map(|expr| compile_expr(context, expr, result_used)),
+                // the alternatives that can match determine the type
+                .map(|expr| compile_expr(context, expr, result_used || is_fail(expr))),
         ),
 
         OptionalExpr(ref e) => {
@@ -830,7 +840,12 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             }}
         }
         FailExpr(ref expected) => {
-            quote_spanned! { span => { __err_state.mark_failure(__pos, #expected); ::peg::RuleResult::Failed }}
+            let failed = if result_used {
+                quote_spanned! { span => ::peg::RuleResult::Failed }
+            } else {
+                quote_spanned! { span => ::peg::RuleResult::Failed::<()> }
+            };
+            quote_spanned! { span => { __err_state.mark_failure(__pos, #expected); #failed }}
         }
 
         PrecedenceExpr { ref levels } => {
-- 
2.43.0


From 73203b3e42c90368f9ca680f74ec7764da7ad40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 11/17] fix: name RuleResult::Failed in full in the cache trace

---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 6f8509a..fcba847 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -268,7 +268,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                     let loc = ::peg::Parse::position_repr(__input, __pos);
                     match &entry {
                         &::peg::RuleResult::Matched(..) => println!("[PEG_TRACE] Cached match of rule `{}` at {}", #str_rule_name, loc),
-                        &Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, loc),
+                        &::peg::RuleResult::Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, loc),
                     };
                 }
             } else {
-- 
2.43.0


From 82771266359251c31f4837dcf97c3c227e8610ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 12/17] fix: keep the names of generated types out of the
 grammar's scope

---
 peg-macros/grammar.rs   | 188 ++++++++++++++++++++--------------------
 peg-macros/translate.rs |  22 ++---
 2 files changed, 105 insertions(+), 105 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index 56d6d33..dda2965 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -2,16 +2,16 @@
 pub mod peg {
     #[allow(unused_imports)]
     use super::*;
-    type Input = FlatTokenStream;
-    type PositionRepr = <Input as ::peg::Parse>::PositionRepr;
+    type __Input = FlatTokenStream;
+    type __PositionRepr = <__Input as ::peg::Parse>::PositionRepr;
     #[allow(unused_parens)]
-    struct ParseState<'input> {
+    struct __ParseState<'input> {
         _phantom: ::core::marker::PhantomData<(&'input ())>,
         primary_cache: ::std::collections::HashMap<usize, ::peg::RuleResult<SpannedExpr>>,
     }
-    impl<'input> ParseState<'input> {
-        fn new() -> ParseState<'input> {
-            ParseState {
+    impl<'input> __ParseState<'input> {
+        fn new() -> __ParseState<'input> {
+            __ParseState {
                 _phantom: ::core::marker::PhantomData,
                 primary_cache: ::std::collections::HashMap::new(),
             }
@@ -22,11 +22,11 @@ pub mod peg {
     use crate::tokens::FlatTokenStream;
     use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream};
     pub fn peg_grammar<'input>(
-        __input: &'input Input,
-    ) -> ::core::result::Result<Grammar, ::peg::error::ParseError<PositionRepr>> {
+        __input: &'input __Input,
+    ) -> ::core::result::Result<Grammar, ::peg::error::ParseError<__PositionRepr>> {
         #![allow(non_snake_case, unused)]
         let mut __err_state = ::peg::error::ErrorState::new(::peg::Parse::start(__input));
-        let mut __state = ParseState::new();
+        let mut __state = __ParseState::new();
         match __parse_peg_grammar(
             __input,
             &mut __state,
@@ -42,7 +42,7 @@ pub mod peg {
             }
             _ => (),
         }
-        __state = ParseState::new();
+        __state = __ParseState::new();
         __err_state.reparse_for_error();
         match __parse_peg_grammar(
             __input,
@@ -65,8 +65,8 @@ pub mod peg {
         Err(__err_state.into_parse_error(__input))
     }
     fn __parse_peg_grammar<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Grammar> {
@@ -137,8 +137,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_lifetime_params<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Vec<TokenStream>> {
@@ -248,8 +248,8 @@ pub mod peg {
         }
     }
     fn __parse_grammar_args<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Vec<(Ident, TokenStream)>> {
@@ -390,8 +390,8 @@ pub mod peg {
         }
     }
     fn __parse_peg_rule<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Rule> {
@@ -501,8 +501,8 @@ pub mod peg {
         }
     }
     fn __parse_cacheflag<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Option<Cache>> {
@@ -609,8 +609,8 @@ pub mod peg {
         }
     }
     fn __parse_no_eof_flag<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<bool> {
@@ -663,8 +663,8 @@ pub mod peg {
         }
     }
     fn __parse_rule_param_ty<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<RuleParamTy> {
@@ -761,8 +761,8 @@ pub mod peg {
         }
     }
     fn __parse_rule_params<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Vec<RuleParam>> {
@@ -900,8 +900,8 @@ pub mod peg {
         }
     }
     fn __parse_item<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Item> {
@@ -933,8 +933,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_doc_comment<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Option<TokenStream>> {
@@ -1022,8 +1022,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_visibility<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Option<TokenStream>> {
@@ -1070,8 +1070,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_use<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<TokenStream> {
@@ -1164,8 +1164,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_path<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -1255,8 +1255,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_type<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -1635,8 +1635,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_ty_path<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -1799,8 +1799,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_ty_params<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Vec<TokenStream>> {
@@ -1915,8 +1915,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_where_clause<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -2202,8 +2202,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_generic_param<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -2405,8 +2405,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_for_lifetimes<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -2429,8 +2429,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_ty_param_bound<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -2593,8 +2593,8 @@ pub mod peg {
         }
     }
     fn __parse_rust_generic_args<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -2750,8 +2750,8 @@ pub mod peg {
         }
     }
     fn __parse_expression<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -2759,8 +2759,8 @@ pub mod peg {
         __parse_choice(__input, __state, __err_state, __pos)
     }
     fn __parse_choice<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -2829,8 +2829,8 @@ pub mod peg {
         }
     }
     fn __parse_sequence<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -2894,8 +2894,8 @@ pub mod peg {
         }
     }
     fn __parse_labeled<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<TaggedExpr> {
@@ -2969,8 +2969,8 @@ pub mod peg {
         }
     }
     fn __parse_suffixed<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -3198,8 +3198,8 @@ pub mod peg {
         }
     }
     fn __parse_repeatcount<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<BoundedRepeat> {
@@ -3323,8 +3323,8 @@ pub mod peg {
         }
     }
     fn __parse_repeatnum<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<TokenStream> {
@@ -3359,8 +3359,8 @@ pub mod peg {
         }
     }
     fn __parse_prefixed<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -3487,8 +3487,8 @@ pub mod peg {
         }
     }
     fn __parse_primary<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
@@ -3805,8 +3805,8 @@ pub mod peg {
         __rule_result
     }
     fn __parse_rule_arg<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<RuleArg> {
@@ -3887,8 +3887,8 @@ pub mod peg {
         }
     }
     fn __parse_precedence_level<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<PrecedenceLevel> {
@@ -3928,8 +3928,8 @@ pub mod peg {
         }
     }
     fn __parse_precedence_op<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<PrecedenceOperator> {
@@ -3982,8 +3982,8 @@ pub mod peg {
         }
     }
     fn __parse_sp<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Span> {
@@ -3991,8 +3991,8 @@ pub mod peg {
         ::peg::call_custom_closure((|input, pos| input.next_span(pos)), __input, __pos)
     }
     fn __parse_KEYWORD<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -4083,8 +4083,8 @@ pub mod peg {
         }
     }
     fn __parse_IDENT<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Ident> {
@@ -4118,8 +4118,8 @@ pub mod peg {
         }
     }
     fn __parse_LITERAL<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Literal> {
@@ -4127,8 +4127,8 @@ pub mod peg {
         ::peg::call_custom_closure((|input, pos| input.literal(pos)), __input, __pos)
     }
     fn __parse_PAREN_GROUP<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Group> {
@@ -4140,8 +4140,8 @@ pub mod peg {
         )
     }
     fn __parse_BRACE_GROUP<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Group> {
@@ -4153,8 +4153,8 @@ pub mod peg {
         )
     }
     fn __parse_BRACKET_GROUP<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<Group> {
@@ -4166,8 +4166,8 @@ pub mod peg {
         )
     }
     fn __parse_LIFETIME<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
@@ -4190,8 +4190,8 @@ pub mod peg {
         }
     }
     fn __parse_INTEGER<'input>(
-        __input: &'input Input,
-        __state: &mut ParseState<'input>,
+        __input: &'input __Input,
+        __state: &mut __ParseState<'input>,
         __err_state: &mut ::peg::error::ErrorState,
         __pos: usize,
     ) -> ::peg::RuleResult<()> {
diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index fcba847..3c519c7 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -64,8 +64,8 @@ pub(crate) fn compile_grammar(grammar: &Grammar) -> TokenStream {
         rules: &analysis.rules,
         rules_from_args: HashSet::new(),
         grammar_lifetime_params,
-        input_ty: quote!(&'input Input<#(#grammar_lifetime_params),*>),
-        parse_state_ty: quote!(&mut ParseState<'input #(, #grammar_lifetime_params)*>),
+        input_ty: quote!(&'input __Input<#(#grammar_lifetime_params),*>),
+        parse_state_ty: quote!(&mut __ParseState<'input #(, #grammar_lifetime_params)*>),
         extra_args_call: extra_args_call(grammar),
         extra_args_def: extra_args_def(grammar),
     };
@@ -143,8 +143,8 @@ pub(crate) fn compile_grammar(grammar: &Grammar) -> TokenStream {
         #visibility mod #name {
             #[allow(unused_imports)]
             use super::*;
-            type Input<#(#grammar_lifetime_params),*> = #input_type;
-            type PositionRepr<#(#grammar_lifetime_params),*> = <Input<#(#grammar_lifetime_params),*> as ::peg::Parse>::PositionRepr;
+            type __Input<#(#grammar_lifetime_params),*> = #input_type;
+            type __PositionRepr<#(#grammar_lifetime_params),*> = <__Input<#(#grammar_lifetime_params),*> as ::peg::Parse>::PositionRepr;
 
             #(#errors)*
             #parse_state
@@ -171,14 +171,14 @@ fn make_parse_state(grammar: &Grammar) -> TokenStream {
 
     quote_spanned! { span =>
         #[allow(unused_parens)]
-        struct ParseState<'input #(, #grammar_lifetime_params)*> {
+        struct __ParseState<'input #(, #grammar_lifetime_params)*> {
             _phantom: ::core::marker::PhantomData<(&'input () #(, &#grammar_lifetime_params ())*)>,
             #(#cache_fields_def),*
         }
 
-        impl<'input #(, #grammar_lifetime_params)*> ParseState<'input #(, #grammar_lifetime_params)*> {
-            fn new() -> ParseState<'input #(, #grammar_lifetime_params)*> {
-                ParseState {
+        impl<'input #(, #grammar_lifetime_params)*> __ParseState<'input #(, #grammar_lifetime_params)*> {
+            fn new() -> __ParseState<'input #(, #grammar_lifetime_params)*> {
+                __ParseState {
                     _phantom: ::core::marker::PhantomData,
                     #(#cache_fields: ::std::collections::HashMap::new()),*
                 }
@@ -383,14 +383,14 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
             __input: #input_ty #extra_args_def #(, #rule_params)*
         ) -> ::core::result::Result<
             #ret_ty,
-            ::peg::error::ParseError<PositionRepr<#(#grammar_lifetime_params),*>>
+            ::peg::error::ParseError<__PositionRepr<#(#grammar_lifetime_params),*>>
         >
         #(#where_clause)*
         {
             #![allow(non_snake_case, unused)]
 
             let mut __err_state = ::peg::error::ErrorState::new(::peg::Parse::start(__input));
-            let mut __state = ParseState::new();
+            let mut __state = __ParseState::new();
             match #parse_fn(__input, &mut __state, &mut __err_state, ::peg::Parse::start(__input) #extra_args_call #(, #rule_params_call)*) {
                 ::peg::RuleResult::Matched(__pos, __value) => {
                     if #eof_check {
@@ -402,7 +402,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
                 _ => ()
             }
 
-            __state = ParseState::new();
+            __state = __ParseState::new();
             __err_state.reparse_for_error();
 
             match #parse_fn(__input, &mut __state, &mut __err_state, ::peg::Parse::start(__input) #extra_args_call #(, #rule_params_call)*) {
-- 
2.43.0


From 905982f1a3b73259a5518f0f0bc55deb08f67980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 13/17] fix: name Result and Option in full in generated code

---
 peg-macros/grammar.rs   | 80 ++++++++++++++++++++++++++---------------
 peg-macros/translate.rs | 20 +++++------
 2 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index dda2965..0c0df6c 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -35,7 +35,7 @@ pub mod peg {
         ) {
             ::peg::RuleResult::Matched(__pos, __value) => {
                 if ::peg::Parse::is_eof(__input, __pos) {
-                    return Ok(__value);
+                    return ::core::result::Result::Ok(__value);
                 } else {
                     __err_state.mark_failure(__pos, "EOF");
                 }
@@ -52,17 +52,17 @@ pub mod peg {
         ) {
             ::peg::RuleResult::Matched(__pos, __value) => {
                 if ::peg::Parse::is_eof(__input, __pos) {
-                    panic!(
+                    ::core::panic!(
                         "Parser is nondeterministic: succeeded when reparsing for error position"
                     );
-                    return Ok(__value);
+                    return ::core::result::Result::Ok(__value);
                 } else {
                     __err_state.mark_failure(__pos, "EOF");
                 }
             }
             _ => (),
         }
-        Err(__err_state.into_parse_error(__input))
+        ::core::result::Result::Err(__err_state.into_parse_error(__input))
     }
     fn __parse_peg_grammar<'input>(
         __input: &'input __Input,
@@ -95,11 +95,14 @@ pub mod peg {
                                                 ::peg::RuleResult::Matched(__newpos, __value) => {
                                                     ::peg::RuleResult::Matched(
                                                         __newpos,
-                                                        Some(__value),
+                                                        ::core::option::Option::Some(__value),
                                                     )
                                                 }
                                                 ::peg::RuleResult::Failed => {
-                                                    ::peg::RuleResult::Matched(__pos, None)
+                                                    ::peg::RuleResult::Matched(
+                                                        __pos,
+                                                        ::core::option::Option::None,
+                                                    )
                                                 }
                                             };
                                             match __seq_res {
@@ -458,7 +461,7 @@ pub mod peg {
                                                                                 __err_state,
                                                                                 __pos,
                                                                             );
-                                                                        match __seq_res { :: peg :: RuleResult :: Matched (__pos , name) => { { let __seq_res = match __parse_rust_ty_params (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , ty_params) => { { let __seq_res = __parse_rule_params (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , params) => { :: peg :: RuleResult :: Matched (__pos , (|| { (name , ty_params , params) }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
+                                                                        match __seq_res { :: peg :: RuleResult :: Matched (__pos , name) => { { let __seq_res = match __parse_rust_ty_params (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , ty_params) => { { let __seq_res = __parse_rule_params (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , params) => { :: peg :: RuleResult :: Matched (__pos , (|| { (name , ty_params , params) }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                     }
                                                                 }
                                                             };
@@ -467,8 +470,8 @@ pub mod peg {
                                                                     __pos,
                                                                     header,
                                                                 ) => {
-                                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , t) => { :: peg :: RuleResult :: Matched (__pos , (|| { t }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , None) } , } ;
-                                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , ret_type) => { { let __seq_res = match { let str_start = __pos ; match match __parse_rust_where_clause (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , where_clause) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "=") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = __parse_expression (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , expr) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ";") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\";\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , (|| { Rule { span , doc , name : header . 0 , ty_params : header . 1 , params : header . 2 , expr , ret_type , where_clause , visibility , no_eof , cache } }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"=\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
+                                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , t) => { :: peg :: RuleResult :: Matched (__pos , (|| { t }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
+                                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , ret_type) => { { let __seq_res = match { let str_start = __pos ; match match __parse_rust_where_clause (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , where_clause) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "=") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = __parse_expression (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , expr) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ";") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\";\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , (|| { Rule { span , doc , name : header . 0 , ty_params : header . 1 , params : header . 2 , expr , ret_type , where_clause , visibility , no_eof , cache } }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"=\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                 }
                                                                 ::peg::RuleResult::Failed => {
                                                                     ::peg::RuleResult::Failed
@@ -874,9 +877,11 @@ pub mod peg {
                     }
                 } {
                     ::peg::RuleResult::Matched(__newpos, __value) => {
-                        ::peg::RuleResult::Matched(__newpos, Some(__value))
+                        ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value))
+                    }
+                    ::peg::RuleResult::Failed => {
+                        ::peg::RuleResult::Matched(__pos, ::core::option::Option::None)
                     }
-                    ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, None),
                 };
                 match __seq_res {
                     ::peg::RuleResult::Matched(__pos, params) => {
@@ -1016,9 +1021,11 @@ pub mod peg {
             }
         } {
             ::peg::RuleResult::Matched(__newpos, __value) => {
-                ::peg::RuleResult::Matched(__newpos, Some(__value))
+                ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value))
+            }
+            ::peg::RuleResult::Failed => {
+                ::peg::RuleResult::Matched(__pos, ::core::option::Option::None)
             }
-            ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, None),
         }
     }
     fn __parse_rust_visibility<'input>(
@@ -1064,9 +1071,11 @@ pub mod peg {
             }
         } {
             ::peg::RuleResult::Matched(__newpos, __value) => {
-                ::peg::RuleResult::Matched(__newpos, Some(__value))
+                ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value))
+            }
+            ::peg::RuleResult::Failed => {
+                ::peg::RuleResult::Matched(__pos, ::core::option::Option::None)
             }
-            ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, None),
         }
     }
     fn __parse_rust_use<'input>(
@@ -2862,11 +2871,15 @@ pub mod peg {
                             let __seq_res =
                                 match __parse_BRACE_GROUP(__input, __state, __err_state, __pos) {
                                     ::peg::RuleResult::Matched(__newpos, __value) => {
-                                        ::peg::RuleResult::Matched(__newpos, Some(__value))
-                                    }
-                                    ::peg::RuleResult::Failed => {
-                                        ::peg::RuleResult::Matched(__pos, None)
+                                        ::peg::RuleResult::Matched(
+                                            __newpos,
+                                            ::core::option::Option::Some(__value),
+                                        )
                                     }
+                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(
+                                        __pos,
+                                        ::core::option::Option::None,
+                                    ),
                                 };
                             match __seq_res {
                                 ::peg::RuleResult::Matched(__pos, code) => {
@@ -2944,9 +2957,11 @@ pub mod peg {
                 }
             } {
                 ::peg::RuleResult::Matched(__newpos, __value) => {
-                    ::peg::RuleResult::Matched(__newpos, Some(__value))
+                    ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value))
+                }
+                ::peg::RuleResult::Failed => {
+                    ::peg::RuleResult::Matched(__pos, ::core::option::Option::None)
                 }
-                ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, None),
             };
             match __seq_res {
                 ::peg::RuleResult::Matched(__pos, label) => {
@@ -3244,11 +3259,15 @@ pub mod peg {
                             let __seq_res =
                                 match __parse_repeatnum(__input, __state, __err_state, __pos) {
                                     ::peg::RuleResult::Matched(__newpos, __value) => {
-                                        ::peg::RuleResult::Matched(__newpos, Some(__value))
-                                    }
-                                    ::peg::RuleResult::Failed => {
-                                        ::peg::RuleResult::Matched(__pos, None)
+                                        ::peg::RuleResult::Matched(
+                                            __newpos,
+                                            ::core::option::Option::Some(__value),
+                                        )
                                     }
+                                    ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(
+                                        __pos,
+                                        ::core::option::Option::None,
+                                    ),
                                 };
                             match __seq_res {
                                 ::peg::RuleResult::Matched(__pos, min) => {
@@ -3265,11 +3284,14 @@ pub mod peg {
                                                 ::peg::RuleResult::Matched(__newpos, __value) => {
                                                     ::peg::RuleResult::Matched(
                                                         __newpos,
-                                                        Some(__value),
+                                                        ::core::option::Option::Some(__value),
                                                     )
                                                 }
                                                 ::peg::RuleResult::Failed => {
-                                                    ::peg::RuleResult::Matched(__pos, None)
+                                                    ::peg::RuleResult::Matched(
+                                                        __pos,
+                                                        ::core::option::Option::None,
+                                                    )
                                                 }
                                             };
                                             match __seq_res {
@@ -3493,7 +3515,7 @@ pub mod peg {
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
-        if let Some(entry) = __state.primary_cache.get(&__pos) {
+        if let ::core::option::Option::Some(entry) = __state.primary_cache.get(&__pos) {
             return entry.clone();
         }
         let __rule_result = {
@@ -3721,7 +3743,7 @@ pub mod peg {
                                                                         __pos,
                                                                         name,
                                                                     ) => {
-                                                                        let __seq_res = match { let str_start = __pos ; match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_generic_args (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , None) } , } ;
+                                                                        let __seq_res = match { let str_start = __pos ; match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_generic_args (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
                                                                         match __seq_res { :: peg :: RuleResult :: Matched (__pos , generics) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "(") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __pos = if __repeat_value . is_empty () { __pos } else { let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ; match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , } } ; let __step_res = __parse_rule_arg (__input , __state , __err_state , __pos) ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } :: peg :: RuleResult :: Matched (__repeat_pos , __repeat_value) } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , args) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ")") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , (|| { RuleExpr (name , generics , args) . at (sp) }) ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\")\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"(\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                     }
                                                                     ::peg::RuleResult::Failed => {
diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 3c519c7..e0a491b 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -277,7 +277,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
 
             match cache_type {
                 Cache::Simple => quote_spanned! { span =>
-                    if let Some(entry) = __state.#cache_field.get(&__pos) {
+                    if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
                         #cache_trace
                         return entry.clone();
                     }
@@ -291,7 +291,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                 // <https://medium.com/@gvanrossum_83706/left-recursive-peg-grammars-65dab3c580e1>
                 {
                     quote_spanned! { span =>
-                        if let Some(entry) = __state.#cache_field.get(&__pos) {
+                        if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
                             #cache_trace
                             return entry.clone();
                         }
@@ -394,7 +394,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
             match #parse_fn(__input, &mut __state, &mut __err_state, ::peg::Parse::start(__input) #extra_args_call #(, #rule_params_call)*) {
                 ::peg::RuleResult::Matched(__pos, __value) => {
                     if #eof_check {
-                        return Ok(__value)
+                        return ::core::result::Result::Ok(__value)
                     } else {
                         __err_state.mark_failure(__pos, "EOF");
                     }
@@ -408,8 +408,8 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
             match #parse_fn(__input, &mut __state, &mut __err_state, ::peg::Parse::start(__input) #extra_args_call #(, #rule_params_call)*) {
                 ::peg::RuleResult::Matched(__pos, __value) => {
                     if #eof_check {
-                        panic!("Parser is nondeterministic: succeeded when reparsing for error position");
-                        return Ok(__value); // dead code, but needed for type inference
+                        ::core::panic!("Parser is nondeterministic: succeeded when reparsing for error position");
+                        return ::core::result::Result::Ok(__value); // dead code, but needed for type inference
                     } else {
                         __err_state.mark_failure(__pos, "EOF");
                     }
@@ -417,7 +417,7 @@ fn compile_rule_export(context: &Context, rule: &Rule) -> TokenStream {
                 _ => ()
             }
 
-            Err(__err_state.into_parse_error(__input))
+            ::core::result::Result::Err(__err_state.into_parse_error(__input))
         }
     }
 }
@@ -668,8 +668,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             if result_used {
                 quote_spanned! { span=>
                     match #optional_res {
-                        ::peg::RuleResult::Matched(__newpos, __value) => { ::peg::RuleResult::Matched(__newpos, Some(__value)) },
-                        ::peg::RuleResult::Failed => { ::peg::RuleResult::Matched(__pos, None) },
+                        ::peg::RuleResult::Matched(__newpos, __value) => { ::peg::RuleResult::Matched(__newpos, ::core::option::Option::Some(__value)) },
+                        ::peg::RuleResult::Failed => { ::peg::RuleResult::Matched(__pos, ::core::option::Option::None) },
                     }
                 }
             } else {
@@ -803,8 +803,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 if let Some(body) = group_check_prefix(code, '?') {
                     quote_spanned! {code_span =>
                         match (||{ #body })() {
-                            Ok(res) => ::peg::RuleResult::Matched(__pos, res),
-                            Err(expected) => {
+                            ::core::result::Result::Ok(res) => ::peg::RuleResult::Matched(__pos, res),
+                            ::core::result::Result::Err(expected) => {
                                 __err_state.mark_failure(__pos, expected);
                                 ::peg::RuleResult::Failed
                             },
-- 
2.43.0


From c9c1a8946d0d935dd1203477c3bcf48baf269ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 14/17] fix: a lower bound of 0 is no lower bound however it is
 written

---
 peg-macros/ast.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/peg-macros/ast.rs b/peg-macros/ast.rs
index d0fcecd..19df5de 100644
--- a/peg-macros/ast.rs
+++ b/peg-macros/ast.rs
@@ -129,7 +129,7 @@ impl BoundedRepeat {
     pub fn has_lower_bound(&self) -> bool {
         match self {
             BoundedRepeat::None | BoundedRepeat::Both(None, _) => false,
-            BoundedRepeat::Exact(n) | BoundedRepeat::Both(Some(n), _) => n.to_string() != "0",
+            BoundedRepeat::Exact(n) | BoundedRepeat::Both(Some(n), _) => !is_zero(n),
             BoundedRepeat::Plus => true,
         }
     }
@@ -141,3 +141,14 @@ impl BoundedRepeat {
         }
     }
 }
+
+/// Is the repeat count an integer literal for zero, like `0`, `0usize` or `0x0`?
+fn is_zero(count: &TokenStream) -> bool {
+    let count = count.to_string();
+    let digits = count.trim_end_matches("usize");
+    let digits = ["0x", "0o", "0b"]
+        .iter()
+        .find_map(|radix| digits.strip_prefix(radix))
+        .unwrap_or(digits);
+    digits.chars().all(|c| c == '0' || c == '_')
+}
-- 
2.43.0


From e8667bd2dce41df2520e84beae439aa097e9015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 15/17] fix: an item named Fn in scope broke generated code

---
 peg-macros/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index e0a491b..d940125 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -203,7 +203,7 @@ fn rule_params_list(context: &Context, rule: &Rule) -> Vec<TokenStream> {
         match &param.ty {
             RuleParamTy::Rust(ty) => quote_spanned!{ span => #name: #ty },
             RuleParamTy::Rule(ty) => quote_spanned!{ span =>
-                #name: impl Fn(#input_ty, #parse_state_ty, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#ty>
+                #name: impl ::core::ops::Fn(#input_ty, #parse_state_ty, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#ty>
             },
         }
     }).collect()
@@ -990,8 +990,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                     err_state: &mut ::peg::error::ErrorState,
                     min_prec: i32,
                     lpos: usize,
-                    prefix_atom: &dyn Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
-                    level_code: &dyn Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
+                    prefix_atom: &dyn ::core::ops::Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
+                    level_code: &dyn ::core::ops::Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
                 ) -> ::peg::RuleResult<T> {
                     let initial = {
                         prefix_atom(lpos, state, err_state, &|pos, min_prec, state, err_state| {
-- 
2.43.0


From c0bd8f0a916e12626c22c04391d648e80522bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 16/17] fix: a literal that is empty after line continuation
 matches nothing

---
 peg-macros/analysis.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index d6be0ec..870abb3 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -29,7 +29,21 @@ pub fn check<'a>(grammar: &'a Grammar) -> GrammarAnalysis<'a> {
 
 /// The empty string literal matches without consuming input
 fn is_empty_string(lit: &Literal) -> bool {
-    lit.to_string().trim_matches(|c| c == 'r' || c == '#') == "\"\""
+    let text = lit.to_string();
+    let quoted = text.trim_matches(|c| c == 'r' || c == '#');
+    let mut content = match quoted.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
+        Some(content) => content,
+        None => return false,
+    };
+
+    if !text.starts_with('r') {
+        // a backslash at the end of a line skips the whitespace that follows
+        while content.starts_with("\\\n") {
+            content = content[2..].trim_start_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
+        }
+    }
+
+    content.is_empty()
 }
 
 /// Check for infinite loops in the form of left recursion.
-- 
2.43.0


From 57bea7d25e1894f16a8c3f134b9392ff27357253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 17/17] fix: constants, statics and enum variants in scope
 broke generated code

A pattern whose name resolves to a constant, a static or an enum variant in
the scope of the grammar refers to it instead of binding a variable. All
variables of generated code now start with two underscores, as most did.
---
 peg-macros/grammar.rs   | 228 ++++++++++++++++++++++------------------
 peg-macros/translate.rs |  96 ++++++++---------
 2 files changed, 172 insertions(+), 152 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index 0c0df6c..8644fd7 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -116,7 +116,7 @@ pub mod peg {
                                                         __err_state,
                                                         __pos,
                                                     );
-                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , args) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "for") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , input_type) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "{") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __step_res = __parse_item (__input , __state , __err_state , __pos) ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } :: peg :: RuleResult :: Matched (__repeat_pos , __repeat_value) } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , items) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , (|| { Grammar { doc , visibility , name , lifetime_params , args , input_type , items } }) ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"{\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"for\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
+                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , args) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "for") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let __str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , __str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , input_type) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "{") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __step_res = __parse_item (__input , __state , __err_state , __pos) ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } :: peg :: RuleResult :: Matched (__repeat_pos , __repeat_value) } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , items) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , (|| { Grammar { doc , visibility , name , lifetime_params , args , input_type , items } }) ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"{\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"for\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -173,10 +173,10 @@ pub mod peg {
                             }
                         };
                         let __step_res = {
-                            let str_start = __pos;
+                            let __str_start = __pos;
                             match match __parse_LIFETIME(__input, __state, __err_state, __pos) {
-                                ::peg::RuleResult::Matched(pos, _) => {
-                                    ::peg::RuleResult::Matched(pos, ())
+                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                    ::peg::RuleResult::Matched(__newpos, ())
                                 }
                                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                             } {
@@ -184,7 +184,9 @@ pub mod peg {
                                     ::peg::RuleResult::Matched(
                                         __newpos,
                                         ::peg::ParseSlice::parse_slice(
-                                            __input, str_start, __newpos,
+                                            __input,
+                                            __str_start,
+                                            __newpos,
                                         ),
                                     )
                                 }
@@ -292,15 +294,15 @@ pub mod peg {
                                     ) {
                                         ::peg::RuleResult::Matched(__pos, __val) => {
                                             let __seq_res = {
-                                                let str_start = __pos;
+                                                let __str_start = __pos;
                                                 match match __parse_rust_type(
                                                     __input,
                                                     __state,
                                                     __err_state,
                                                     __pos,
                                                 ) {
-                                                    ::peg::RuleResult::Matched(pos, _) => {
-                                                        ::peg::RuleResult::Matched(pos, ())
+                                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                                        ::peg::RuleResult::Matched(__newpos, ())
                                                     }
                                                     ::peg::RuleResult::Failed => {
                                                         ::peg::RuleResult::Failed
@@ -310,7 +312,9 @@ pub mod peg {
                                                         ::peg::RuleResult::Matched(
                                                             __newpos,
                                                             ::peg::ParseSlice::parse_slice(
-                                                                __input, str_start, __newpos,
+                                                                __input,
+                                                                __str_start,
+                                                                __newpos,
                                                             ),
                                                         )
                                                     }
@@ -470,8 +474,8 @@ pub mod peg {
                                                                     __pos,
                                                                     header,
                                                                 ) => {
-                                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , t) => { :: peg :: RuleResult :: Matched (__pos , (|| { t }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
-                                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , ret_type) => { { let __seq_res = match { let str_start = __pos ; match match __parse_rust_where_clause (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , where_clause) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "=") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = __parse_expression (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , expr) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ";") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\";\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , (|| { Rule { span , doc , name : header . 0 , ty_params : header . 1 , params : header . 2 , expr , ret_type , where_clause , visibility , no_eof , cache } }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"=\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
+                                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let __str_start = __pos ; match match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , __str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , t) => { :: peg :: RuleResult :: Matched (__pos , (|| { t }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
+                                                                    match __seq_res { :: peg :: RuleResult :: Matched (__pos , ret_type) => { { let __seq_res = match { let __str_start = __pos ; match match __parse_rust_where_clause (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , __str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , where_clause) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "=") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = __parse_expression (__input , __state , __err_state , __pos) ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , expr) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ";") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\";\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , (|| { Rule { span , doc , name : header . 0 , ty_params : header . 1 , params : header . 2 , expr , ret_type , where_clause , visibility , no_eof , cache } }) ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"=\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                 }
                                                                 ::peg::RuleResult::Failed => {
                                                                     ::peg::RuleResult::Failed
@@ -679,15 +683,15 @@ pub mod peg {
                         match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "<") {
                             ::peg::RuleResult::Matched(__pos, __val) => {
                                 let __seq_res = {
-                                    let str_start = __pos;
+                                    let __str_start = __pos;
                                     match match __parse_rust_type(
                                         __input,
                                         __state,
                                         __err_state,
                                         __pos,
                                     ) {
-                                        ::peg::RuleResult::Matched(pos, _) => {
-                                            ::peg::RuleResult::Matched(pos, ())
+                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                            ::peg::RuleResult::Matched(__newpos, ())
                                         }
                                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                     } {
@@ -695,7 +699,9 @@ pub mod peg {
                                             ::peg::RuleResult::Matched(
                                                 __newpos,
                                                 ::peg::ParseSlice::parse_slice(
-                                                    __input, str_start, __newpos,
+                                                    __input,
+                                                    __str_start,
+                                                    __newpos,
                                                 ),
                                             )
                                         }
@@ -739,16 +745,16 @@ pub mod peg {
                 }
                 ::peg::RuleResult::Failed => {
                     let __seq_res = {
-                        let str_start = __pos;
+                        let __str_start = __pos;
                         match match __parse_rust_type(__input, __state, __err_state, __pos) {
-                            ::peg::RuleResult::Matched(pos, _) => {
-                                ::peg::RuleResult::Matched(pos, ())
+                            ::peg::RuleResult::Matched(__newpos, _) => {
+                                ::peg::RuleResult::Matched(__newpos, ())
                             }
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         } {
                             ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                                 __newpos,
-                                ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                                ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                             ),
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
@@ -945,7 +951,7 @@ pub mod peg {
     ) -> ::peg::RuleResult<Option<TokenStream>> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         match {
-            let str_start = __pos;
+            let __str_start = __pos;
             match {
                 let mut __repeat_pos = __pos;
                 loop {
@@ -970,8 +976,8 @@ pub mod peg {
                                                         __err_state,
                                                         __pos,
                                                     ) {
-                                                        ::peg::RuleResult::Matched(pos, _) => {
-                                                            ::peg::RuleResult::Matched(pos, ())
+                                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                                            ::peg::RuleResult::Matched(__newpos, ())
                                                         }
                                                         ::peg::RuleResult::Failed => {
                                                             ::peg::RuleResult::Failed
@@ -1015,7 +1021,7 @@ pub mod peg {
             } {
                 ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                     __newpos,
-                    ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                    ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                 ),
                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
             }
@@ -1036,13 +1042,13 @@ pub mod peg {
     ) -> ::peg::RuleResult<Option<TokenStream>> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         match {
-            let str_start = __pos;
+            let __str_start = __pos;
             match match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "pub") {
                 ::peg::RuleResult::Matched(__pos, __val) => {
                     let __seq_res =
                         match match __parse_PAREN_GROUP(__input, __state, __err_state, __pos) {
-                            ::peg::RuleResult::Matched(pos, _) => {
-                                ::peg::RuleResult::Matched(pos, ())
+                            ::peg::RuleResult::Matched(__newpos, _) => {
+                                ::peg::RuleResult::Matched(__newpos, ())
                             }
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         } {
@@ -1065,7 +1071,7 @@ pub mod peg {
             } {
                 ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                     __newpos,
-                    ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                    ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                 ),
                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
             }
@@ -1087,13 +1093,13 @@ pub mod peg {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         {
             let __seq_res = {
-                let str_start = __pos;
+                let __str_start = __pos;
                 match match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "use") {
                     ::peg::RuleResult::Matched(__pos, __val) => {
                         let __seq_res =
                             match __parse_rust_path(__input, __state, __err_state, __pos) {
-                                ::peg::RuleResult::Matched(pos, _) => {
-                                    ::peg::RuleResult::Matched(pos, ())
+                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                    ::peg::RuleResult::Matched(__newpos, ())
                                 }
                                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                             };
@@ -1127,8 +1133,8 @@ pub mod peg {
                                             ::peg::RuleResult::Matched(__pos, __value)
                                         }
                                         ::peg::RuleResult::Failed => {
-                                            let __choice_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "{") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __pos = if __repeat_value . is_empty () { __pos } else { let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ; match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , } } ; let __step_res = { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } if __repeat_value . len () >= 1 { :: peg :: RuleResult :: Matched (__repeat_pos , ()) } else { :: peg :: RuleResult :: Failed } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"{\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } ;
-                                            match __choice_res { :: peg :: RuleResult :: Matched (__pos , __value) => :: peg :: RuleResult :: Matched (__pos , __value) , :: peg :: RuleResult :: Failed => match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } }
+                                            let __choice_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "{") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __pos = if __repeat_value . is_empty () { __pos } else { let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ; match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , } } ; let __step_res = { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } if __repeat_value . len () >= 1 { :: peg :: RuleResult :: Matched (__repeat_pos , ()) } else { :: peg :: RuleResult :: Failed } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "}") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"}\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"{\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } ;
+                                            match __choice_res { :: peg :: RuleResult :: Matched (__pos , __value) => :: peg :: RuleResult :: Matched (__pos , __value) , :: peg :: RuleResult :: Failed => match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_IDENT (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } }
                                         }
                                     }
                                 };
@@ -1159,7 +1165,7 @@ pub mod peg {
                 } {
                     ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                         __newpos,
-                        ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                        ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                     ),
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 }
@@ -1231,8 +1237,8 @@ pub mod peg {
                             };
                             let __step_res =
                                 match __parse_IDENT(__input, __state, __err_state, __pos) {
-                                    ::peg::RuleResult::Matched(pos, _) => {
-                                        ::peg::RuleResult::Matched(pos, ())
+                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                        ::peg::RuleResult::Matched(__newpos, ())
                                     }
                                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 };
@@ -1272,7 +1278,7 @@ pub mod peg {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         {
             let __choice_res = match __parse_BRACKET_GROUP(__input, __state, __err_state, __pos) {
-                ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(__newpos, ()),
                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
             };
             match __choice_res {
@@ -1289,8 +1295,8 @@ pub mod peg {
                                     __err_state,
                                     __pos,
                                 ) {
-                                    ::peg::RuleResult::Matched(pos, _) => {
-                                        ::peg::RuleResult::Matched(pos, ())
+                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                        ::peg::RuleResult::Matched(__newpos, ())
                                     }
                                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 } {
@@ -1330,8 +1336,8 @@ pub mod peg {
                                                     __err_state,
                                                     __pos,
                                                 ) {
-                                                    ::peg::RuleResult::Matched(pos, _) => {
-                                                        ::peg::RuleResult::Matched(pos, ())
+                                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                                        ::peg::RuleResult::Matched(__newpos, ())
                                                     }
                                                     ::peg::RuleResult::Failed => {
                                                         ::peg::RuleResult::Failed
@@ -1403,8 +1409,8 @@ pub mod peg {
                                                 __err_state,
                                                 __pos,
                                             ) {
-                                                ::peg::RuleResult::Matched(pos, _) => {
-                                                    ::peg::RuleResult::Matched(pos, ())
+                                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                                    ::peg::RuleResult::Matched(__newpos, ())
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -1473,10 +1479,10 @@ pub mod peg {
                                                                 __pos,
                                                             ) {
                                                                 ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     _,
                                                                 ) => ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     (),
                                                                 ),
                                                                 ::peg::RuleResult::Failed => {
@@ -1540,7 +1546,7 @@ pub mod peg {
                                                                         let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ;
                                                                         match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , }
                                                                     };
-                                                                    let __step_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
+                                                                    let __step_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
                                                                     match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } }
                                                                 }
                                                                 if __repeat_value.len() >= 1 {
@@ -1591,7 +1597,7 @@ pub mod peg {
                                                     ::peg::RuleResult::Matched(__pos, __value)
                                                 }
                                                 ::peg::RuleResult::Failed => {
-                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "<") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_ty_path (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ">") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\">\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"<\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
+                                                    let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "<") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { { let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "as") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_ty_path (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"as\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ">") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\">\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"<\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
                                                     match __seq_res {
                                                         ::peg::RuleResult::Matched(__pos, _) => {
                                                             let __seq_res =
@@ -1602,11 +1608,11 @@ pub mod peg {
                                                                     __pos,
                                                                 ) {
                                                                     ::peg::RuleResult::Matched(
-                                                                        pos,
+                                                                        __newpos,
                                                                         _,
                                                                     ) => {
                                                                         ::peg::RuleResult::Matched(
-                                                                            pos,
+                                                                            __newpos,
                                                                             (),
                                                                         )
                                                                     }
@@ -1695,8 +1701,8 @@ pub mod peg {
                             let __step_res = {
                                 let __seq_res =
                                     match __parse_IDENT(__input, __state, __err_state, __pos) {
-                                        ::peg::RuleResult::Matched(pos, _) => {
-                                            ::peg::RuleResult::Matched(pos, ())
+                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                            ::peg::RuleResult::Matched(__newpos, ())
                                         }
                                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                     };
@@ -1715,10 +1721,10 @@ pub mod peg {
                                                                 __pos,
                                                             ) {
                                                                 ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     _,
                                                                 ) => ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     (),
                                                                 ),
                                                                 ::peg::RuleResult::Failed => {
@@ -1733,13 +1739,13 @@ pub mod peg {
                                                                 __pos, __value,
                                                             ),
                                                             ::peg::RuleResult::Failed => {
-                                                                let __seq_res = match __parse_PAREN_GROUP (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
+                                                                let __seq_res = match __parse_PAREN_GROUP (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
                                                                 match __seq_res {
                                                                     ::peg::RuleResult::Matched(
                                                                         __pos,
                                                                         _,
                                                                     ) => {
-                                                                        let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
+                                                                        let __seq_res = match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "->") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_type (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"->\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , ()) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , ()) } , } ;
                                                                         match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                     }
                                                                     ::peg::RuleResult::Failed => {
@@ -1841,15 +1847,15 @@ pub mod peg {
                             }
                         };
                         let __step_res = {
-                            let str_start = __pos;
+                            let __str_start = __pos;
                             match match __parse_rust_generic_param(
                                 __input,
                                 __state,
                                 __err_state,
                                 __pos,
                             ) {
-                                ::peg::RuleResult::Matched(pos, _) => {
-                                    ::peg::RuleResult::Matched(pos, ())
+                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                    ::peg::RuleResult::Matched(__newpos, ())
                                 }
                                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                             } {
@@ -1857,7 +1863,9 @@ pub mod peg {
                                     ::peg::RuleResult::Matched(
                                         __newpos,
                                         ::peg::ParseSlice::parse_slice(
-                                            __input, str_start, __newpos,
+                                            __input,
+                                            __str_start,
+                                            __newpos,
                                         ),
                                     )
                                 }
@@ -1960,8 +1968,8 @@ pub mod peg {
                             let __choice_res = {
                                 let __seq_res =
                                     match __parse_LIFETIME(__input, __state, __err_state, __pos) {
-                                        ::peg::RuleResult::Matched(pos, _) => {
-                                            ::peg::RuleResult::Matched(pos, ())
+                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                            ::peg::RuleResult::Matched(__newpos, ())
                                         }
                                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                     };
@@ -1999,10 +2007,10 @@ pub mod peg {
                                                                 __pos,
                                                             ) {
                                                                 ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     _,
                                                                 ) => ::peg::RuleResult::Matched(
-                                                                    pos,
+                                                                    __newpos,
                                                                     (),
                                                                 ),
                                                                 ::peg::RuleResult::Failed => {
@@ -2073,8 +2081,8 @@ pub mod peg {
                                         __err_state,
                                         __pos,
                                     ) {
-                                        ::peg::RuleResult::Matched(pos, _) => {
-                                            ::peg::RuleResult::Matched(pos, ())
+                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                            ::peg::RuleResult::Matched(__newpos, ())
                                         }
                                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                     } {
@@ -2093,8 +2101,8 @@ pub mod peg {
                                                 __err_state,
                                                 __pos,
                                             ) {
-                                                ::peg::RuleResult::Matched(pos, _) => {
-                                                    ::peg::RuleResult::Matched(pos, ())
+                                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                                    ::peg::RuleResult::Matched(__newpos, ())
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -2122,7 +2130,7 @@ pub mod peg {
                                                                         let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "+") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"+\"") ; :: peg :: RuleResult :: Failed } } ;
                                                                         match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , }
                                                                     };
-                                                                    let __step_res = match __parse_rust_ty_param_bound (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
+                                                                    let __step_res = match __parse_rust_ty_param_bound (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ;
                                                                     match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } }
                                                                 }
                                                                 if __repeat_value.len() >= 1 {
@@ -2220,7 +2228,9 @@ pub mod peg {
         {
             let __choice_res = {
                 let __seq_res = match __parse_LIFETIME(__input, __state, __err_state, __pos) {
-                    ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                    ::peg::RuleResult::Matched(__newpos, _) => {
+                        ::peg::RuleResult::Matched(__newpos, ())
+                    }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 };
                 match __seq_res {
@@ -2260,8 +2270,8 @@ pub mod peg {
                                             __err_state,
                                             __pos,
                                         ) {
-                                            ::peg::RuleResult::Matched(pos, _) => {
-                                                ::peg::RuleResult::Matched(pos, ())
+                                            ::peg::RuleResult::Matched(__newpos, _) => {
+                                                ::peg::RuleResult::Matched(__newpos, ())
                                             }
                                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                         };
@@ -2314,7 +2324,9 @@ pub mod peg {
                 }
                 ::peg::RuleResult::Failed => {
                     let __seq_res = match __parse_IDENT(__input, __state, __err_state, __pos) {
-                        ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                        ::peg::RuleResult::Matched(__newpos, _) => {
+                            ::peg::RuleResult::Matched(__newpos, ())
+                        }
                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                     };
                     match __seq_res {
@@ -2360,8 +2372,8 @@ pub mod peg {
                                                 __err_state,
                                                 __pos,
                                             ) {
-                                                ::peg::RuleResult::Matched(pos, _) => {
-                                                    ::peg::RuleResult::Matched(pos, ())
+                                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                                    ::peg::RuleResult::Matched(__newpos, ())
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -2423,7 +2435,9 @@ pub mod peg {
         match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "for") {
             ::peg::RuleResult::Matched(__pos, __val) => {
                 let __seq_res = match __parse_rust_ty_params(__input, __state, __err_state, __pos) {
-                    ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                    ::peg::RuleResult::Matched(__newpos, _) => {
+                        ::peg::RuleResult::Matched(__newpos, ())
+                    }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 };
                 match __seq_res {
@@ -2446,7 +2460,7 @@ pub mod peg {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         {
             let __choice_res = match __parse_LIFETIME(__input, __state, __err_state, __pos) {
-                ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(__newpos, ()),
                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
             };
             match __choice_res {
@@ -2479,8 +2493,8 @@ pub mod peg {
                                     __err_state,
                                     __pos,
                                 ) {
-                                    ::peg::RuleResult::Matched(pos, _) => {
-                                        ::peg::RuleResult::Matched(pos, ())
+                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                        ::peg::RuleResult::Matched(__newpos, ())
                                     }
                                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 } {
@@ -2499,8 +2513,8 @@ pub mod peg {
                                             __err_state,
                                             __pos,
                                         ) {
-                                            ::peg::RuleResult::Matched(pos, _) => {
-                                                ::peg::RuleResult::Matched(pos, ())
+                                            ::peg::RuleResult::Matched(__newpos, _) => {
+                                                ::peg::RuleResult::Matched(__newpos, ())
                                             }
                                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                         };
@@ -2551,8 +2565,8 @@ pub mod peg {
                                                 __err_state,
                                                 __pos,
                                             ) {
-                                                ::peg::RuleResult::Matched(pos, _) => {
-                                                    ::peg::RuleResult::Matched(pos, ())
+                                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                                    ::peg::RuleResult::Matched(__newpos, ())
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -2573,8 +2587,8 @@ pub mod peg {
                                                         __err_state,
                                                         __pos,
                                                     ) {
-                                                        ::peg::RuleResult::Matched(pos, _) => {
-                                                            ::peg::RuleResult::Matched(pos, ())
+                                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                                            ::peg::RuleResult::Matched(__newpos, ())
                                                         }
                                                         ::peg::RuleResult::Failed => {
                                                             ::peg::RuleResult::Failed
@@ -2637,8 +2651,8 @@ pub mod peg {
                         let __step_res = {
                             let __choice_res =
                                 match __parse_LIFETIME(__input, __state, __err_state, __pos) {
-                                    ::peg::RuleResult::Matched(pos, _) => {
-                                        ::peg::RuleResult::Matched(pos, ())
+                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                        ::peg::RuleResult::Matched(__newpos, ())
                                     }
                                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                 };
@@ -2653,8 +2667,8 @@ pub mod peg {
                                         __err_state,
                                         __pos,
                                     ) {
-                                        ::peg::RuleResult::Matched(pos, _) => {
-                                            ::peg::RuleResult::Matched(pos, ())
+                                        ::peg::RuleResult::Matched(__newpos, _) => {
+                                            ::peg::RuleResult::Matched(__newpos, ())
                                         }
                                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                     };
@@ -2669,8 +2683,8 @@ pub mod peg {
                                                 __err_state,
                                                 __pos,
                                             ) {
-                                                ::peg::RuleResult::Matched(pos, _) => {
-                                                    ::peg::RuleResult::Matched(pos, ())
+                                                ::peg::RuleResult::Matched(__newpos, _) => {
+                                                    ::peg::RuleResult::Matched(__newpos, ())
                                                 }
                                                 ::peg::RuleResult::Failed => {
                                                     ::peg::RuleResult::Failed
@@ -2686,8 +2700,8 @@ pub mod peg {
                                                     __err_state,
                                                     __pos,
                                                 ) {
-                                                    ::peg::RuleResult::Matched(pos, _) => {
-                                                        ::peg::RuleResult::Matched(pos, ())
+                                                    ::peg::RuleResult::Matched(__newpos, _) => {
+                                                        ::peg::RuleResult::Matched(__newpos, ())
                                                     }
                                                     ::peg::RuleResult::Failed => {
                                                         ::peg::RuleResult::Failed
@@ -3352,10 +3366,12 @@ pub mod peg {
     ) -> ::peg::RuleResult<TokenStream> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         {
-            let str_start = __pos;
+            let __str_start = __pos;
             match {
                 let __choice_res = match __parse_INTEGER(__input, __state, __err_state, __pos) {
-                    ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                    ::peg::RuleResult::Matched(__newpos, _) => {
+                        ::peg::RuleResult::Matched(__newpos, ())
+                    }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 };
                 match __choice_res {
@@ -3364,8 +3380,8 @@ pub mod peg {
                     }
                     ::peg::RuleResult::Failed => {
                         match __parse_BRACE_GROUP(__input, __state, __err_state, __pos) {
-                            ::peg::RuleResult::Matched(pos, _) => {
-                                ::peg::RuleResult::Matched(pos, ())
+                            ::peg::RuleResult::Matched(__newpos, _) => {
+                                ::peg::RuleResult::Matched(__newpos, ())
                             }
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
@@ -3374,7 +3390,7 @@ pub mod peg {
             } {
                 ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                     __newpos,
-                    ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                    ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                 ),
                 ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
             }
@@ -3515,8 +3531,8 @@ pub mod peg {
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
-        if let ::core::option::Option::Some(entry) = __state.primary_cache.get(&__pos) {
-            return entry.clone();
+        if let ::core::option::Option::Some(__entry) = __state.primary_cache.get(&__pos) {
+            return __entry.clone();
         }
         let __rule_result = {
             let __choice_res = {
@@ -3743,7 +3759,7 @@ pub mod peg {
                                                                         __pos,
                                                                         name,
                                                                     ) => {
-                                                                        let __seq_res = match { let str_start = __pos ; match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_generic_args (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (pos , _) => :: peg :: RuleResult :: Matched (pos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
+                                                                        let __seq_res = match { let __str_start = __pos ; match match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "::") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = match __parse_rust_generic_args (__input , __state , __err_state , __pos) { :: peg :: RuleResult :: Matched (__newpos , _) => :: peg :: RuleResult :: Matched (__newpos , ()) , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , _) => { :: peg :: RuleResult :: Matched (__pos , ()) } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"::\"") ; :: peg :: RuleResult :: Failed } } { :: peg :: RuleResult :: Matched (__newpos , _) => { :: peg :: RuleResult :: Matched (__newpos , :: peg :: ParseSlice :: parse_slice (__input , __str_start , __newpos)) } , :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } { :: peg :: RuleResult :: Matched (__newpos , __value) => { :: peg :: RuleResult :: Matched (__newpos , :: core :: option :: Option :: Some (__value)) } , :: peg :: RuleResult :: Failed => { :: peg :: RuleResult :: Matched (__pos , :: core :: option :: Option :: None) } , } ;
                                                                         match __seq_res { :: peg :: RuleResult :: Matched (__pos , generics) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , "(") { :: peg :: RuleResult :: Matched (__pos , __val) => { { let __seq_res = { let mut __repeat_pos = __pos ; let mut __repeat_value = vec ! () ; loop { let __pos = __repeat_pos ; let __pos = if __repeat_value . is_empty () { __pos } else { let __sep_res = match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ",") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , __val) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\",\"") ; :: peg :: RuleResult :: Failed } } ; match __sep_res { :: peg :: RuleResult :: Matched (__newpos , _) => { __newpos } , :: peg :: RuleResult :: Failed => break , } } ; let __step_res = __parse_rule_arg (__input , __state , __err_state , __pos) ; match __step_res { :: peg :: RuleResult :: Matched (__newpos , __value) => { __repeat_pos = __newpos ; __repeat_value . push (__value) ; } , :: peg :: RuleResult :: Failed => { break ; } } } :: peg :: RuleResult :: Matched (__repeat_pos , __repeat_value) } ; match __seq_res { :: peg :: RuleResult :: Matched (__pos , args) => { match :: peg :: ParseLiteral :: parse_string_literal (__input , __pos , ")") { :: peg :: RuleResult :: Matched (__pos , __val) => { :: peg :: RuleResult :: Matched (__pos , (|| { RuleExpr (name , generics , args) . at (sp) }) ()) } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\")\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , } } } :: peg :: RuleResult :: Failed => { __err_state . mark_failure (__pos , "\"(\"") ; :: peg :: RuleResult :: Failed } } } :: peg :: RuleResult :: Failed => :: peg :: RuleResult :: Failed , }
                                                                     }
                                                                     ::peg::RuleResult::Failed => {
@@ -3864,7 +3880,7 @@ pub mod peg {
                 }
                 ::peg::RuleResult::Failed => {
                     let __seq_res = {
-                        let str_start = __pos;
+                        let __str_start = __pos;
                         match {
                             let mut __repeat_pos = __pos;
                             let mut __repeat_value = vec![];
@@ -3893,7 +3909,7 @@ pub mod peg {
                         } {
                             ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(
                                 __newpos,
-                                ::peg::ParseSlice::parse_slice(__input, str_start, __newpos),
+                                ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos),
                             ),
                             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
@@ -4115,7 +4131,9 @@ pub mod peg {
             let __seq_res = {
                 __err_state.suppress_fail += 1;
                 let __assert_res = match __parse_KEYWORD(__input, __state, __err_state, __pos) {
-                    ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                    ::peg::RuleResult::Matched(__newpos, _) => {
+                        ::peg::RuleResult::Matched(__newpos, ())
+                    }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 };
                 __err_state.suppress_fail -= 1;
@@ -4197,7 +4215,9 @@ pub mod peg {
         match ::peg::ParseLiteral::parse_string_literal(__input, __pos, "'") {
             ::peg::RuleResult::Matched(__pos, __val) => {
                 let __seq_res = match __parse_IDENT(__input, __state, __err_state, __pos) {
-                    ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                    ::peg::RuleResult::Matched(__newpos, _) => {
+                        ::peg::RuleResult::Matched(__newpos, ())
+                    }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 };
                 match __seq_res {
@@ -4219,7 +4239,7 @@ pub mod peg {
     ) -> ::peg::RuleResult<()> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
         match __parse_LITERAL(__input, __state, __err_state, __pos) {
-            ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+            ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(__newpos, ()),
             ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
         }
     }
diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index d940125..99cd784 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -236,16 +236,16 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
     let wrapped_body = if cfg!(feature = "trace") {
         let str_rule_name = rule.name.to_string();
         quote_spanned! { span => {
-            let loc = ::peg::Parse::position_repr(__input, __pos);
-            println!("[PEG_TRACE] Attempting to match rule `{}` at {}", #str_rule_name, loc);
+            let __loc = ::peg::Parse::position_repr(__input, __pos);
+            println!("[PEG_TRACE] Attempting to match rule `{}` at {}", #str_rule_name, __loc);
             let __peg_result: ::peg::RuleResult<#ret_ty> = {#body};
             match __peg_result {
-                ::peg::RuleResult::Matched(epos, _) => {
-                    let eloc = ::peg::Parse::position_repr(__input, epos);
-                    println!("[PEG_TRACE] Matched rule `{}` at {} to {}", #str_rule_name, loc, eloc);
+                ::peg::RuleResult::Matched(__epos, _) => {
+                    let __eloc = ::peg::Parse::position_repr(__input, __epos);
+                    println!("[PEG_TRACE] Matched rule `{}` at {} to {}", #str_rule_name, __loc, __eloc);
                 }
                 ::peg::RuleResult::Failed => {
-                    println!("[PEG_TRACE] Failed to match rule `{}` at {}", #str_rule_name, loc);
+                    println!("[PEG_TRACE] Failed to match rule `{}` at {}", #str_rule_name, __loc);
                 }
             }
 
@@ -265,10 +265,10 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
             let cache_trace = if cfg!(feature = "trace") {
                 let str_rule_name = rule.name.to_string();
                 quote_spanned! { span =>
-                    let loc = ::peg::Parse::position_repr(__input, __pos);
-                    match &entry {
-                        &::peg::RuleResult::Matched(..) => println!("[PEG_TRACE] Cached match of rule `{}` at {}", #str_rule_name, loc),
-                        &::peg::RuleResult::Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, loc),
+                    let __loc = ::peg::Parse::position_repr(__input, __pos);
+                    match &__entry {
+                        &::peg::RuleResult::Matched(..) => println!("[PEG_TRACE] Cached match of rule `{}` at {}", #str_rule_name, __loc),
+                        &::peg::RuleResult::Failed => println!("[PEG_TRACE] Cached fail of rule `{}` at {}", #str_rule_name, __loc),
                     };
                 }
             } else {
@@ -277,9 +277,9 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
 
             match cache_type {
                 Cache::Simple => quote_spanned! { span =>
-                    if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
+                    if let ::core::option::Option::Some(__entry) = __state.#cache_field.get(&__pos) {
                         #cache_trace
-                        return entry.clone();
+                        return __entry.clone();
                     }
 
                     let __rule_result = #wrapped_body;
@@ -291,9 +291,9 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                 // <https://medium.com/@gvanrossum_83706/left-recursive-peg-grammars-65dab3c580e1>
                 {
                     quote_spanned! { span =>
-                        if let ::core::option::Option::Some(entry) = __state.#cache_field.get(&__pos) {
+                        if let ::core::option::Option::Some(__entry) = __state.#cache_field.get(&__pos) {
                             #cache_trace
-                            return entry.clone();
+                            return __entry.clone();
                         }
 
                         __state.#cache_field.insert(__pos, ::peg::RuleResult::Failed);
@@ -638,7 +638,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             } else {
                 quote_spanned! { span=>
                     match #func #generics (__input, __state, __err_state, __pos #extra_args_call #(, #rule_args_call)*){
-                        ::peg::RuleResult::Matched(pos, _) => ::peg::RuleResult::Matched(pos, ()),
+                        ::peg::RuleResult::Matched(__newpos, _) => ::peg::RuleResult::Matched(__newpos, ()),
                         ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                     }
                 }
@@ -803,9 +803,9 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 if let Some(body) = group_check_prefix(code, '?') {
                     quote_spanned! {code_span =>
                         match (||{ #body })() {
-                            ::core::result::Result::Ok(res) => ::peg::RuleResult::Matched(__pos, res),
-                            ::core::result::Result::Err(expected) => {
-                                __err_state.mark_failure(__pos, expected);
+                            ::core::result::Result::Ok(__value) => ::peg::RuleResult::Matched(__pos, __value),
+                            ::core::result::Result::Err(__expected) => {
+                                __err_state.mark_failure(__pos, __expected);
                                 ::peg::RuleResult::Failed
                             },
                         }
@@ -820,9 +820,9 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
         MatchStrExpr(ref expr) => {
             let inner = compile_expr(context, expr, false);
             quote_spanned! { span => {
-                let str_start = __pos;
+                let __str_start = __pos;
                 match #inner {
-                    ::peg::RuleResult::Matched(__newpos, _) => { ::peg::RuleResult::Matched(__newpos, ::peg::ParseSlice::parse_slice(__input, str_start, __newpos)) },
+                    ::peg::RuleResult::Matched(__newpos, _) => { ::peg::RuleResult::Matched(__newpos, ::peg::ParseSlice::parse_slice(__input, __str_start, __newpos)) },
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                 }
             }}
@@ -834,9 +834,9 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             let inner = compile_expr(context, expr, result_used);
             quote_spanned! { span => {
                 __err_state.suppress_fail += 1;
-                let res = #inner;
+                let __quiet_res = #inner;
                 __err_state.suppress_fail -= 1;
-                res
+                __quiet_res
             }}
         }
         FailExpr(ref expected) => {
@@ -974,8 +974,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
 
             let (enter, leave) = if cfg!(feature = "trace") {
                 (
-                    quote_spanned! {span => println!("[PEG_TRACE] Entering level {}", min_prec);},
-                    quote_spanned! {span => println!("[PEG_TRACE] Leaving level {}", min_prec);},
+                    quote_spanned! {span => println!("[PEG_TRACE] Entering level {}", __min_prec);},
+                    quote_spanned! {span => println!("[PEG_TRACE] Leaving level {}", __min_prec);},
                 )
             } else {
                 (quote!(), quote!())
@@ -986,45 +986,45 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
 
             quote_spanned! { span => {
                 fn __infix_parse<T, S>(
-                    state: &mut S,
-                    err_state: &mut ::peg::error::ErrorState,
-                    min_prec: i32,
-                    lpos: usize,
-                    prefix_atom: &dyn ::core::ops::Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
-                    level_code: &dyn ::core::ops::Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
+                    __state: &mut S,
+                    __err_state: &mut ::peg::error::ErrorState,
+                    __min_prec: i32,
+                    __lpos: usize,
+                    __prefix_atom: &dyn ::core::ops::Fn(usize, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> ::peg::RuleResult<T>,
+                    __level_code: &dyn ::core::ops::Fn(usize, usize, i32, T, &mut S, &mut ::peg::error::ErrorState, &dyn ::core::ops::Fn(usize, i32, &mut S, &mut ::peg::error::ErrorState) -> ::peg::RuleResult<T>) -> (T, ::peg::RuleResult<()>),
                 ) -> ::peg::RuleResult<T> {
-                    let initial = {
-                        prefix_atom(lpos, state, err_state, &|pos, min_prec, state, err_state| {
-                            __infix_parse(state, err_state, min_prec, pos, prefix_atom, level_code)
+                    let __initial = {
+                        __prefix_atom(__lpos, __state, __err_state, &|__pos, __min_prec, __state, __err_state| {
+                            __infix_parse(__state, __err_state, __min_prec, __pos, __prefix_atom, __level_code)
                         })
                     };
 
-                    if let ::peg::RuleResult::Matched(pos, mut infix_result) = initial {
+                    if let ::peg::RuleResult::Matched(__pos, mut __infix_result) = __initial {
                         #enter
-                        let mut repeat_pos = pos;
+                        let mut __repeat_pos = __pos;
                         loop {
-                            let (val, res) = level_code(
-                                repeat_pos,
-                                lpos,
-                                min_prec,
-                                infix_result,
-                                state,
-                                err_state,
-                                &|pos, min_prec, state, err_state| {
-                                    __infix_parse(state, err_state, min_prec, pos, prefix_atom, level_code)
+                            let (__val, __res) = __level_code(
+                                __repeat_pos,
+                                __lpos,
+                                __min_prec,
+                                __infix_result,
+                                __state,
+                                __err_state,
+                                &|__pos, __min_prec, __state, __err_state| {
+                                    __infix_parse(__state, __err_state, __min_prec, __pos, __prefix_atom, __level_code)
                                 }
                             );
-                            infix_result = val;
+                            __infix_result = __val;
 
-                            if let ::peg::RuleResult::Matched(pos, ()) = res {
-                                repeat_pos = pos;
+                            if let ::peg::RuleResult::Matched(__pos, ()) = __res {
+                                __repeat_pos = __pos;
                                 continue;
                             }
 
                             break;
                         }
                         #leave
-                        ::peg::RuleResult::Matched(repeat_pos, infix_result)
+                        ::peg::RuleResult::Matched(__repeat_pos, __infix_result)
                     } else {
                         ::peg::RuleResult::Failed
                     }
-- 
2.43.0

