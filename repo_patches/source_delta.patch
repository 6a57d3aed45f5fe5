From 59328203c7c40e75be242b3a894e2da6f7f0d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:51 +0000
Subject: [PATCH 01/18] fix: consume the mut keyword of static mut declarations

---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..197b940 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let ident = ident.clone();
+            tokens.next();
+            Some(ident)
         }
         _ => None,
     };
-- 
2.43.0


From e4e7133935e40f737011086b7291e68d3215ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 02/18] fix: parse explicitly typed self parameters as typed
 parameters

---
 src/parse_fn.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..9dc6614 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -82,7 +82,14 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_ref = consume_punct(&mut tokens, '&');
         let lifetime = consume_lifetime(&mut tokens, false);
         let tk_mut = consume_ident(&mut tokens, "mut");
-        let tk_self = consume_ident(&mut tokens, "self");
+
+        // `self: Pin<&mut Self>` is a typed parameter, not a receiver
+        let before_self = tokens.clone();
+        let mut tk_self = consume_ident(&mut tokens, "self");
+        if matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == ':') {
+            tokens = before_self;
+            tk_self = None;
+        }
 
         let param = if let Some(tk_self) = tk_self {
             FnParam::Receiver(FnReceiverParam {
-- 
2.43.0


From a48693e5af17bf5a43a2159cd5723f75c45cdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:23 +0000
Subject: [PATCH 03/18] fix: reject reference patterns in fn params instead of
 dropping the &

---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 9dc6614..97b0436 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -101,6 +101,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         } else {
             // TODO - handle non-ident argument names
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: reference patterns are not supported");
+            }
             let param_name = parse_any_ident(&mut tokens, "fn param name");
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
-- 
2.43.0


From f10e43eccaed0b6020e652f29275381318097f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:25 +0000
Subject: [PATCH 04/18] fix: reject fn params and enum variants that are not
 separated by commas

---
 src/parse_fn.rs   |  6 ++++++
 src/parse_type.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 97b0436..85be4f0 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -118,6 +118,12 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         };
 
         let comma = consume_comma(&mut tokens);
+        if comma.is_none() && tokens.peek().is_some() {
+            panic!(
+                "cannot parse fn params: expected ',', got {:?}",
+                tokens.peek()
+            );
+        }
 
         fields.push(param, comma);
     }
diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..86cb682 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -424,9 +424,15 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
         let comma = consume_comma(&mut tokens);
+        if comma.is_none() && tokens.peek().is_some() {
+            panic!(
+                "cannot parse enum variants: expected ',', got {:?}",
+                tokens.peek()
+            );
+        }
 
         variants.push(
             EnumVariant {
@@ -434,7 +440,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
-- 
2.43.0


From aa2eb335fe9d1a9c8e0c84c728e8524119032ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:27 +0000
Subject: [PATCH 05/18] fix: don't count angle brackets in const and static
 initializers

---
 src/parse_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 197b940..087af80 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,15 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // In a value expression, `<` and `>` are operators: they don't have to be balanced.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            None => break,
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From 9f17883c115279e997235c2b1c3e46952eced3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 06/18] fix: recognize :: when it is glued to the following
 punctuation

---
 src/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..b2fe734 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -286,7 +286,7 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From f233d5600d52ad7b39ae96cb861ff78391e88b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:58 +0000
Subject: [PATCH 07/18] fix: keep paths such as T::Item whole on the left side
 of where predicates

---
 src/parse_type.rs    | 11 ++---------
 src/parse_utils.rs   | 22 ++++++++++++++++++++++
 src/types_edition.rs |  9 +--------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 86cb682..3506d85 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,7 @@
 use crate::error::Error;
 use crate::parse_utils::{
     consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_stuff_until, consume_vis_marker, consume_where_left_side, parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -227,14 +227,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index b2fe734..1b1bd5f 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -272,6 +272,28 @@ pub(crate) fn consume_stuff_until(
     output_tokens
 }
 
+/// Consumes the left side of a where-clause item, up to the `:` in front of its bound.
+///
+/// The `::` in a path such as `T::Item` doesn't end the left side.
+pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        ));
+
+        match consume_colon2(tokens) {
+            Some([first, second]) => left_side.extend([first.into(), second.into()]),
+            None => return left_side,
+        }
+    }
+}
+
 pub(crate) fn consume_comma(tokens: &mut TokenIter) -> Option<Punct> {
     consume_punct(tokens, ',')
 }
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..a71fe46 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_utils::consume_where_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From 85b0f6a49941a96254e99b170c99265852d68738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:00 +0000
Subject: [PATCH 08/18] fix: don't end a generic bound at the arrow of Fn() ->
 T

---
 src/parse_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 1b1bd5f..78943d1 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -237,6 +237,8 @@ pub(crate) fn consume_stuff_until(
                 bracket_count -= 1;
                 false
             }
+            // The tip of an arrow isn't a closing bracket
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => false,
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
             Some(token) if predicate(token) && bracket_count == 0 => {
                 predicate_met = true;
-- 
2.43.0


From 4d082fc1b940b742bdab146fd68b8b1ae492298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:03 +0000
Subject: [PATCH 09/18] fix: don't take tuple types and crate:: paths for
 visibility markers

---
 src/parse_utils.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 78943d1..4258781 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -184,6 +184,22 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// Whether the group after a `pub` token is part of the visibility marker.
+///
+/// If not, it's something else, like the tuple type in `struct MyTuple(pub (A, B));`.
+fn is_vis_restriction(group: &Group) -> bool {
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -191,7 +207,9 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
+                Some(TokenTree::Group(group))
+                    if group.delimiter() == Delimiter::Parenthesis && is_vis_restriction(group) =>
+                {
                     Some(VisMarker {
                         tk_token1: pub_token,
                         tk_token2: Some(tokens.next().unwrap()),
@@ -203,10 +221,19 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let before_start = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+            if consume_colon2(tokens).is_some() {
+                // Not a marker, but the start of a path, eg `crate::MyType`
+                *tokens = before_start;
+                return None;
+            }
+            Some(VisMarker {
+                tk_token1: crate_token,
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 6c108b41b1f0682727d2e4abcd92fc33ad5e7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:37 +0000
Subject: [PATCH 10/18] fix: reject visibility markers on impl blocks and
 macros instead of dropping them

---
 src/parse.rs       |  6 +++++-
 src/parse_impl.rs  | 10 +++-------
 src/parse_utils.rs | 11 +++++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..e713cfc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -8,7 +8,9 @@ use crate::parse_type::{
     consume_generic_params, consume_item_name, consume_where_clause, parse_enum_variants,
     parse_named_fields, parse_tuple_fields,
 };
-use crate::parse_utils::{consume_outer_attributes, consume_punct, consume_vis_marker};
+use crate::parse_utils::{
+    consume_outer_attributes, consume_punct, consume_vis_marker, reject_vis_marker,
+};
 use crate::types::{Enum, Fields, GroupSpan, Item, Struct, Union};
 use proc_macro2::token_stream::IntoIter;
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -194,6 +196,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            reject_vis_marker(vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -223,6 +226,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
+                reject_vis_marker(vis_marker);
                 Item::Macro(macro_)
             } else {
                 panic!(
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 087af80..0e8ef52 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -5,13 +5,13 @@ use crate::parse_type::{consume_bound, consume_generic_params, consume_where_cla
 use crate::parse_utils::{
     consume_ident, consume_inner_attributes, consume_outer_attributes, consume_punct,
     consume_stuff_until, consume_vis_marker, parse_any_ident, parse_ident, parse_punct,
+    reject_vis_marker,
 };
 use crate::types::{
     Attribute, Constant, GroupSpan, Impl, ImplMember, Item, Trait, TraitMember, TypeAlias,
     TypeExpr, ValueExpr, VisMarker,
 };
 use proc_macro2::{Delimiter, Group, TokenTree};
-use quote::ToTokens;
 use std::iter::Peekable;
 
 type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -156,6 +156,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        reject_vis_marker(vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -174,12 +175,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                reject_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 4258781..9dc6e91 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,7 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
 use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
+use quote::ToTokens;
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -238,6 +239,16 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     }
 }
 
+/// For items that can't store a visibility marker.
+pub(crate) fn reject_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // Consumes tokens until a separator is reached *unless* the
 // separator in between angle brackets
 // eg consume_stuff_until(..., |token| token == ',') will consume all
-- 
2.43.0


From c5f773d4b01cdb4f2c21a0f307b94c24f9725b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:39 +0000
Subject: [PATCH 11/18] fix: don't split impl headers at the for of a for<'a>
 binder

---
 src/parse_impl.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 0e8ef52..538e2d8 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -228,20 +228,40 @@ pub(crate) fn parse_impl_body(
     (GroupSpan::new(&token_group), inner_attributes, body_items)
 }
 
+/// Whether the next tokens are a binder such as `for<'a>`, as opposed to the
+/// `for` between a trait and a type.
+fn at_lifetime_binder(tokens: &TokenIter) -> bool {
+    let mut tokens = tokens.clone();
+    consume_ident(&mut tokens, "for").is_some()
+        && consume_punct(&mut tokens, '<').is_some()
+        && matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '\'' || punct.as_char() == '>'
+        )
+}
+
 pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
     let impl_generic_params = consume_generic_params(tokens);
-    let trait_or_self_ty = consume_stuff_until(
-        tokens,
-        |tk| match tk {
-            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
-            TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
-            _ => false,
-        },
-        true,
-    );
+    let mut trait_or_self_ty = Vec::new();
+    loop {
+        trait_or_self_ty.extend(consume_stuff_until(
+            tokens,
+            |tk| match tk {
+                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
+                TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
+                _ => false,
+            },
+            true,
+        ));
+        if !at_lifetime_binder(tokens) {
+            break;
+        }
+        // `for`
+        trait_or_self_ty.push(tokens.next().unwrap());
+    }
 
     let (tk_for, trait_ty, self_ty) = if let Some(tk_for) = consume_ident(tokens, "for") {
         let self_ty = consume_stuff_until(
-- 
2.43.0


From c9a6aa8423a750a5d0e517274301cf1018d19e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:42 +0000
Subject: [PATCH 12/18] fix: reject tokens after the value of an attribute
 instead of dropping them

---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 9dc6e91..bf2d1d7 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -148,6 +148,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!("cannot parse attribute: expected `]`, found {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From c4565e7fb8eb6b1c6ae15101627fe772dc16ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:44 +0000
Subject: [PATCH 13/18] fix: don't swallow a semicolon after a struct with
 named fields

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index e713cfc..5fb2468 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -123,7 +123,10 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            let semicolon = match struct_fields {
+                Fields::Named(_) => None,
+                Fields::Unit | Fields::Tuple(_) => consume_punct(tokens, ';'),
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From 12e8e5f08c61f5cdead0469905e1e8b234dc3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:47 +0000
Subject: [PATCH 14/18] fix: accept macro items delimited by square brackets

---
 src/parse_fn.rs | 7 ++++---
 src/types.rs    | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 85be4f0..58c8162 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -291,15 +291,16 @@ fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Op
     let tk_bang = consume_punct(tokens, '!')?;
     let tk_declared_name = consume_any_ident(tokens);
 
-    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
+    let (needs_semicolon, macro_body) = match tokens.next().expect("unexpected end of macro") {
         TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Bracket => (true, group),
         TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
-        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
+        _ => panic!("cannot parse macro; missing `{{}}`, `()` or `[]` group"),
     };
 
     let inner_tokens = macro_body.stream().into_iter().collect();
 
-    let tk_semicolon = if is_paren {
+    let tk_semicolon = if needs_semicolon {
         Some(parse_punct(tokens, ';', "macro invocation semicolon"))
     } else {
         None
diff --git a/src/types.rs b/src/types.rs
index f60024d..a139a9d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -772,11 +772,11 @@ pub struct Macro {
     ///
     /// In `macro_rules! my_macro { ... }`, this is `my_macro`.
     pub tk_declared_name: Option<Ident>,
-    /// The `{}` or `()` group around the macro invocation.
+    /// The `{}`, `()` or `[]` group around the macro invocation.
     pub tk_braces_or_parens: GroupSpan,
     /// Unparsed tokens in the macro invocation.
     pub inner_tokens: Vec<TokenTree>,
-    /// The `;` token, in case `()` is used.
+    /// The `;` token, in case `()` or `[]` is used.
     pub tk_semicolon: Option<Punct>,
 }
 
-- 
2.43.0


From 6daebf5351c646fd67f38929736da9f7516ef279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:50 +0000
Subject: [PATCH 15/18] fix: keep the comma given to Punctuated::insert

---
 src/punctuated.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/punctuated.rs b/src/punctuated.rs
index 476f568..066287f 100644
--- a/src/punctuated.rs
+++ b/src/punctuated.rs
@@ -44,8 +44,8 @@ impl<T> Punctuated<T> {
         if index == self.len() {
             self.push(value, comma);
         } else {
-            self.inner
-                .insert(index, (value, Punct::new(',', Spacing::Alone)));
+            let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
+            self.inner.insert(index, (value, comma));
         }
     }
 
-- 
2.43.0


From 6b9b24bee8bef34ba3f5ac9174b549c5393bfa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:25 +0000
Subject: [PATCH 16/18] fix: don't read dyn, impl and for<'a> types as paths

---
 src/parse_utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index bf2d1d7..a697258 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -373,6 +373,12 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
+            // `dyn ::path::to::Trait`, `for<'a> fn(...)`, etc
+            Some(TokenTree::Ident(ident))
+                if ident == "dyn" || ident == "impl" || ident == "for" =>
+            {
+                return None
+            }
             Some(TokenTree::Ident(ident)) => ident.clone(),
             _ => return None, // end of tokens OR not a path
         };
-- 
2.43.0


From 93cab2d439b10f0f2e03e44c329ed7f30150bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 17/18] fix: do not drop a stray comma when reading generic
 arguments

---
 src/parse_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 3506d85..941ed67 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -192,13 +192,13 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-- 
2.43.0


From 114248cb41d3b46e01da7de9f7a5b77f890f2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:52 +0000
Subject: [PATCH 18/18] fix: accept macros named default or union

---
 src/parse.rs      | 6 +++---
 src/parse_fn.rs   | 6 ++++++
 src/parse_impl.rs | 6 ++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5fb2468..21f6bd5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1,5 +1,5 @@
 use crate::error::Error;
-use crate::parse_fn::consume_macro;
+use crate::parse_fn::{at_macro, consume_macro};
 use crate::parse_impl::{
     consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
 };
@@ -165,7 +165,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 variants: enum_variants?,
             })
         }
-        Some(TokenTree::Ident(keyword)) if keyword == "union" => {
+        Some(TokenTree::Ident(keyword)) if keyword == "union" && !at_macro(tokens) => {
             // union keyword
             tokens.next().unwrap();
 
@@ -217,7 +217,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             if matches!(
                 keyword.to_string().as_str(),
                 "default" | "const" | "async" | "unsafe" | "extern" | "fn" | "type"
-            ) =>
+            ) && !(keyword == "default" && at_macro(tokens)) =>
         {
             // Reuse impl parsing
             consume_either_fn_type_const_static_impl(
diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 58c8162..edff2f4 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -286,6 +286,12 @@ pub(crate) fn consume_macro(tokens: &mut TokenIter, attributes: Vec<Attribute>)
     }
 }
 
+/// Whether the next tokens are `name !`. Macros may be named like a contextual keyword.
+pub(crate) fn at_macro(tokens: &TokenIter) -> bool {
+    let mut tokens = tokens.clone();
+    consume_any_ident(&mut tokens).is_some() && consume_punct(&mut tokens, '!').is_some()
+}
+
 fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Option<Macro> {
     let name = consume_any_ident(tokens)?;
     let tk_bang = consume_punct(tokens, '!')?;
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 538e2d8..962d9b6 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,5 +1,5 @@
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
-use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
+use crate::parse_fn::{at_macro, consume_fn, consume_macro, NotFunction};
 use crate::parse_mod::parse_mod;
 use crate::parse_type::{consume_bound, consume_generic_params, consume_where_clause};
 use crate::parse_utils::{
@@ -140,7 +140,9 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
             }
 
             // Note: `static` is only used for extern "abi" {} blocks. Checked in call site.
-            "default" | "const" | "static" | "async" | "unsafe" | "extern" | "fn" => {
+            "default" | "const" | "static" | "async" | "unsafe" | "extern" | "fn"
+                if !(keyword == "default" && at_macro(tokens)) =>
+            {
                 match consume_fn(tokens, attributes.clone(), vis_marker.clone()) {
                     Ok(method) => Item::Function(method),
                     Err(NotFunction::Const) => {
-- 
2.43.0

