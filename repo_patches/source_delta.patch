From b96aec776cdab9fce32344c90cc21cda05289ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:29 +0000
Subject: [PATCH 01/16] fix: consume the `mut` keyword of `static mut`
 declarations

`mut` was peeked but never consumed, so every `static mut NAME: T` declaration
(an example in the documentation of Constant) panicked.
---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..d1a4aff 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let tk_mut = ident.clone();
+            tokens.next(); // consume 'mut'
+            Some(tk_mut)
         }
         _ => None,
     };
-- 
2.43.0


From 00a2a142637d8d736a23103b685e187cf2b5c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:47 +0000
Subject: [PATCH 02/16] fix: don't mistake the tip of an arrow for the end of a
 generic param bound

In `struct S<F: Fn(A) -> B>` the `>` of the arrow was taken for the closing
bracket of the parameter list, so the declaration panicked.
---
 src/parse_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..176e115 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -237,6 +237,8 @@ pub(crate) fn consume_stuff_until(
                 bracket_count -= 1;
                 false
             }
+            // The tip of an arrow `->` is never a closing bracket nor a separator.
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => false,
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
             Some(token) if predicate(token) && bracket_count == 0 => {
                 predicate_met = true;
-- 
2.43.0


From 9150bb752fd658de344a2d18740724f846625384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:50 +0000
Subject: [PATCH 03/16] fix: parse `self: Type` as a typed function parameter

As documented on FnReceiverParam, parameters such as `self: Pin<&mut Self>` are
typed parameters; they panicked because `self` was always taken as a receiver.
---
 src/parse_fn.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..1ec0f76 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -69,6 +69,19 @@ pub(crate) fn consume_fn_qualifiers(tokens: &mut TokenIter) -> FnQualifiers {
     }
 }
 
+/// Consumes `self`, unless it is the name of a typed parameter such as `self: Pin<&mut Self>`.
+fn consume_self_receiver(tokens: &mut TokenIter) -> Option<Ident> {
+    let before_start = tokens.clone();
+    let tk_self = consume_ident(tokens, "self")?;
+
+    if matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == ':') {
+        *tokens = before_start;
+        return None;
+    }
+
+    Some(tk_self)
+}
+
 fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
     let mut fields = Punctuated::new();
 
@@ -82,7 +95,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_ref = consume_punct(&mut tokens, '&');
         let lifetime = consume_lifetime(&mut tokens, false);
         let tk_mut = consume_ident(&mut tokens, "mut");
-        let tk_self = consume_ident(&mut tokens, "self");
+        let tk_self = consume_self_receiver(&mut tokens);
 
         let param = if let Some(tk_self) = tk_self {
             FnParam::Receiver(FnReceiverParam {
-- 
2.43.0


From c4cd4649f48922b001cb8fc4a374056f30ab3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:52 +0000
Subject: [PATCH 04/16] fix: don't silently drop `&` in front of a typed
 function parameter

`fn f(&a: &i32)` was accepted as `fn f(a: &i32)`. Patterns are not supported as
parameter names, so this now panics like the other patterns do.
---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 1ec0f76..997e3b7 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -107,6 +107,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         } else {
             // TODO - handle non-ident argument names
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: reference patterns are not supported");
+            }
             let param_name = parse_any_ident(&mut tokens, "fn param name");
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
-- 
2.43.0


From c32d319b030710be06d1df29e1d7e6ec6fe2f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 05/16] fix: recognize `::` when it is directly followed by
 punctuation

In `Vec::<T>` as produced by the compiler, the second colon is joint with `<`,
so the turbofish was not recognized and TypeExpr::as_path() returned None.
---
 src/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 176e115..df54de0 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -288,7 +288,7 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 08ae1290353e44192a27be69269c02cc40575061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 06/16] fix: don't split where-clause predicates at `::`

In `where T::Item: Clone` the left side was `T` and the bound started with the
second colon of `::`. The same held for WhereClausePredicate::parse().
---
 src/parse_type.rs    | 13 +++----------
 src/parse_utils.rs   | 20 ++++++++++++++++++++
 src/types_edition.rs | 11 ++---------
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..67afdf2 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,7 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_predicate_left_side,
+    consume_punct, consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -227,14 +227,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_predicate_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index df54de0..9c6c8ef 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -299,6 +299,26 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     None
 }
 
+/// Consumes the left side of a where-clause predicate, stopping *before* the `:` of its bound.
+///
+/// The `::` path separators inside the left side don't start a bound.
+pub(crate) fn consume_predicate_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| matches!(token, TokenTree::Punct(punct) if punct.as_char() == ':'),
+            false,
+        ));
+
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.into_iter().map(TokenTree::from)),
+            None => return left_side,
+        }
+    }
+}
+
 /// Tries to parse a path expressions; returns `None` if not matching.
 pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     let mut segments = vec![];
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..89bd773 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -1,4 +1,4 @@
-use crate::parse_utils::{consume_path, tokens_from_slice};
+use crate::parse_utils::{consume_path, consume_predicate_left_side, tokens_from_slice};
 use crate::types::{
     Attribute, AttributeValue, Constant, Enum, EnumVariant, EnumVariantValue, ExternBlock,
     ExternCrate, Fields, FnQualifiers, Function, GenericArg, GenericArgList, GenericBound,
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_predicate_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From b79924b8dfba15c54e3e253e20f2e5b6a74f790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:34 +0000
Subject: [PATCH 07/16] fix: don't take the `crate` of a path for a visibility
 marker

The field of `struct S(crate::Foo)` had visibility `crate` and type `::Foo`.
---
 src/parse_utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 9c6c8ef..a9a9ea0 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -203,10 +203,21 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let before_start = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+
+            // `crate::` is the start of a path
+            if consume_colon2(tokens).is_some() {
+                *tokens = before_start;
+                return None;
+            }
+
+            Some(VisMarker {
+                tk_token1: crate_token,
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 61b8f2a6ec0a565b2b25b3e99ea220f8ddeae444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 08/16] fix: don't take a parenthesized field type for a
 visibility restriction

`struct S(pub (A, B))` panicked because `(A, B)` was taken as part of the
visibility marker.
---
 src/parse_type.rs  |  5 +++--
 src/parse_utils.rs | 32 +++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 67afdf2..f24fd05 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,8 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_predicate_left_side,
-    consume_punct, consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
+    parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a9a9ea0..7d582b4 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -184,6 +184,26 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// Returns true for the group in `pub(crate)`, `pub(self)`, `pub(super)` and `pub(in some::path)`.
+///
+/// Any other group following `pub` is the type of a tuple field, as in `struct S(pub (A, B))`.
+fn is_vis_restriction(group: &Group) -> bool {
+    if group.delimiter() != Delimiter::Parenthesis {
+        return false;
+    }
+
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -191,12 +211,10 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
-                    Some(VisMarker {
-                        tk_token1: pub_token,
-                        tk_token2: Some(tokens.next().unwrap()),
-                    })
-                }
+                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
+                    tk_token1: pub_token,
+                    tk_token2: Some(tokens.next().unwrap()),
+                }),
                 _ => Some(VisMarker {
                     tk_token1: pub_token,
                     tk_token2: None,
-- 
2.43.0


From 5ac66e41dabf49f205153d016c34208b9899ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:39 +0000
Subject: [PATCH 09/16] fix: accept comparison and shift operators in constant
 initializers

`const X: i32 = 1 << 3;` panicked because `<` and `>` were expected to be
balanced in the initializer.
---
 src/parse_impl.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index d1a4aff..9b4abeb 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,13 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // Note: unlike in types, `<` and `>` are usually not brackets in expressions.
+    let mut value_tokens = Vec::new();
+    while let Some(token) =
+        tokens.next_if(|tt| !matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'))
+    {
+        value_tokens.push(token);
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From 0314c9c645a14c0d2b4fe8b3b00ff5b5feb7275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:16 +0000
Subject: [PATCH 10/16] fix: accept macro invocations delimited by square
 brackets

`foo![a, b];` is a valid item, but it panicked.
---
 src/parse_fn.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 997e3b7..937a0fc 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -291,15 +291,16 @@ fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Op
     let tk_bang = consume_punct(tokens, '!')?;
     let tk_declared_name = consume_any_ident(tokens);
 
-    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
+    let (needs_semicolon, macro_body) = match tokens.next().expect("unexpected end of macro") {
         TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Bracket => (true, group),
         TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
-        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
+        _ => panic!("cannot parse macro; missing `{{}}`, `()` or `[]` group"),
     };
 
     let inner_tokens = macro_body.stream().into_iter().collect();
 
-    let tk_semicolon = if is_paren {
+    let tk_semicolon = if needs_semicolon {
         Some(parse_punct(tokens, ';', "macro invocation semicolon"))
     } else {
         None
-- 
2.43.0


From bb4998cf371fe8085a3e05a635c6da0573664fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:19 +0000
Subject: [PATCH 11/16] fix: print the semicolon consumed after a struct with
 named fields

The `;` of `struct S {};` was stored in Struct::tk_semicolon, but not printed.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index f60024d..473fe4e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1120,8 +1120,8 @@ impl ToTokens for Struct {
         } else {
             self.fields.to_tokens(tokens);
             self.where_clause.to_tokens(tokens);
-            self.tk_semicolon.to_tokens(tokens);
         }
+        self.tk_semicolon.to_tokens(tokens);
     }
 }
 
-- 
2.43.0


From b62fc6b21fa9ba823b8e07ea3f1c270b7096eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:22 +0000
Subject: [PATCH 12/16] fix: don't silently drop tokens at the end of an
 attribute

`#[a(b) c]` was accepted as `#[a(b)]`.
---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 7d582b4..3e572e0 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.next() {
+                    panic!("cannot parse attribute: unexpected token {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From d00fd2b077fc3fa870eec0bdc11bc741b3e3d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:25 +0000
Subject: [PATCH 13/16] fix: don't silently drop the visibility of impl blocks
 and macros

`pub impl S {}` and `pub foo! {}` were accepted without their `pub`. They now
panic, as visibilities of macros inside impl blocks already did.
---
 src/parse.rs      |  4 +++-
 src/parse_impl.rs | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..3ba1188 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2,6 +2,7 @@ use crate::error::Error;
 use crate::parse_fn::consume_macro;
 use crate::parse_impl::{
     consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
+    reject_vis_marker,
 };
 use crate::parse_mod::{parse_mod, parse_use_declaration};
 use crate::parse_type::{
@@ -194,7 +195,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
-            let impl_decl = parse_impl(tokens, attributes);
+            let impl_decl = parse_impl(tokens, attributes, vis_marker);
             Item::Impl(impl_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "static" => {
@@ -222,6 +223,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             )
         }
         Some(token) => {
+            reject_vis_marker(vis_marker);
             if let Some(macro_) = consume_macro(tokens, attributes) {
                 Item::Macro(macro_)
             } else {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 9b4abeb..8e12d57 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -122,6 +122,16 @@ pub(crate) fn consume_ty_definition(
     })
 }
 
+/// Panics on the visibility marker of an item that can't have one.
+pub(crate) fn reject_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // TODO could accept a mask, allowing only certain sub-items. This could be made to reject e.g. extern crate in impl blocks.
 pub(crate) fn consume_either_fn_type_const_static_impl(
     tokens: &mut TokenIter,
@@ -154,7 +164,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
-                        let impl_decl = parse_impl(tokens, attributes);
+                        let impl_decl = parse_impl(tokens, attributes, vis_marker);
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
@@ -172,12 +182,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                reject_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
@@ -230,7 +235,12 @@ pub(crate) fn parse_impl_body(
     (GroupSpan::new(&token_group), inner_attributes, body_items)
 }
 
-pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
+pub(crate) fn parse_impl(
+    tokens: &mut TokenIter,
+    attributes: Vec<Attribute>,
+    vis_marker: Option<VisMarker>,
+) -> Impl {
+    reject_vis_marker(vis_marker);
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
-- 
2.43.0


From 1232c77a840165d5e6a5068a2a73d14cfabcfff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:28 +0000
Subject: [PATCH 14/16] fix: don't accept lists with missing commas

`enum E { A(X) B }` and `fn f(self b: i32)` were accepted and printed with a
comma that isn't in the input.
---
 src/parse_fn.rs    |  4 ++--
 src/parse_type.rs  |  8 ++++----
 src/parse_utils.rs | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 937a0fc..dde747b 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -3,7 +3,7 @@ use crate::parse_type::{
     consume_where_clause,
 };
 use crate::parse_utils::{
-    consume_any_ident, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
+    consume_any_ident, consume_ident, consume_list_comma, consume_outer_attributes, consume_punct,
     consume_stuff_until, parse_any_ident, parse_punct,
 };
 use crate::punctuated::Punctuated;
@@ -123,7 +123,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         };
 
-        let comma = consume_comma(&mut tokens);
+        let comma = consume_list_comma(&mut tokens, "fn params");
 
         fields.push(param, comma);
     }
diff --git a/src/parse_type.rs b/src/parse_type.rs
index f24fd05..196f916 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,6 +1,6 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    consume_colon2, consume_comma, consume_ident, consume_list_comma, consume_outer_attributes,
     consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
     parse_any_ident, parse_punct,
 };
@@ -418,9 +418,9 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
-        let comma = consume_comma(&mut tokens);
+        let comma = consume_list_comma(&mut tokens, "enum variants");
 
         variants.push(
             EnumVariant {
@@ -428,7 +428,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 3e572e0..cd561cc 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -311,6 +311,20 @@ pub(crate) fn consume_comma(tokens: &mut TokenIter) -> Option<Punct> {
     consume_punct(tokens, ',')
 }
 
+/// Consumes the comma after an element of a list; only the last element may come without one.
+pub(crate) fn consume_list_comma(tokens: &mut TokenIter, panic_context: &str) -> Option<Punct> {
+    let comma = consume_comma(tokens);
+    if comma.is_none() {
+        if let Some(token) = tokens.peek() {
+            panic!(
+                "cannot parse {}: expected `,` punct, got {:?}",
+                panic_context, token
+            );
+        }
+    }
+    comma
+}
+
 /// Parse `::`, as in path separator or turbofish.
 ///
 /// Does not advance `tokens` if the double colon is not found.
-- 
2.43.0


From 90b1172d7fb832ea510f3afd5b3665192635f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:30 +0000
Subject: [PATCH 15/16] fix: don't silently drop a comma in an empty place of a
 generic argument list

---
 src/parse_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 196f916..e5ea2a3 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -193,13 +193,13 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-- 
2.43.0


From 4daefb1b46cd69e509a229ea2fa57201661bbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 16/16] fix: don't take more than one predicate for a
 where-clause item

---
 src/types_edition.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/types_edition.rs b/src/types_edition.rs
index 89bd773..5f549ba 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -1,4 +1,6 @@
-use crate::parse_utils::{consume_path, consume_predicate_left_side, tokens_from_slice};
+use crate::parse_utils::{
+    consume_path, consume_predicate_left_side, consume_stuff_until, tokens_from_slice,
+};
 use crate::types::{
     Attribute, AttributeValue, Constant, Enum, EnumVariant, EnumVariantValue, ExternBlock,
     ExternCrate, Fields, FnQualifiers, Function, GenericArg, GenericArgList, GenericBound,
@@ -776,7 +778,22 @@ impl WhereClausePredicate {
             }
         };
 
-        let bound_tokens = tokens.collect();
+        let bound_tokens = consume_stuff_until(
+            &mut tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ',' || punct.as_char() == ';' => true,
+                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
+                _ => false,
+            },
+            false,
+        );
+
+        if let Some(token) = tokens.next() {
+            panic!(
+                "cannot parse where-clause item: unexpected token {:?} after bound",
+                token
+            );
+        }
 
         WhereClausePredicate {
             left_side,
-- 
2.43.0

