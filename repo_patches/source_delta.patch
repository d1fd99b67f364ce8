From bfd484451bfeb02795b4393d53ffa0ce8e48bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 01/14] fix: accept `name=value` when the value starts with
 punctuation

`peek_eq_op` looked at the spacing of the `=` token, so `name=-1`,
`name=&x` or `name=!x` (no space after `=`) was not recognised as
`name = value`.
---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From a0a3af15408ed81fe5819da5bc901a9c3c3c2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 02/14] fix: generated code works for fields that come from
 macro_rules fragments

The generated local variables `input`, `span`, `content` and `tokens`
were emitted with the hygiene of the field's own tokens, so deriving inside
a `macro_rules!` macro with caller-supplied fields failed to compile
("cannot find value `input` in this scope").
---
 structmeta-derive/src/struct_meta.rs | 29 ++++++++++++++++++++--------
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..a745138 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -363,7 +363,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = call_site_ident("input");
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -397,10 +398,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let span_ident = call_site_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -440,10 +442,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let span_ident = call_site_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -750,19 +753,29 @@ impl<'a> NamedParamType<'a> {
     }
 }
 
+/// Identifier of a local variable of the generated code.
+///
+/// In `quote_spanned!`, local variables must not get the hygiene of the field's tokens,
+/// which may come from a `macro_rules!` fragment.
+fn call_site_ident(name: &str) -> Ident {
+    Ident::new(name, Span::call_site())
+}
+
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = call_site_ident("input");
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = call_site_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> #content.parse::<#ty>()?)
     };
     quote! {
         {
-            let content;
-            ::structmeta::helpers::exports::syn::parenthesized!(content in input);
+            let #content;
+            ::structmeta::helpers::exports::syn::parenthesized!(#content in input);
             #value
         }
     }
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..453d8f2 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -161,7 +161,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = Ident::new("tokens", Span::call_site());
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -203,7 +204,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = Ident::new("tokens", Span::call_site());
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From f2dce6d0c7de6ddb19cf0a363ca04a8b7f8fc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 03/14] fix: report an unmatched closing delimiter instead of
 panicking

`#[derive(ToTokens)]` with `#[to_tokens(")")]` and no open delimiter
unwrapped an empty scope stack.
---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 453d8f2..1111d87 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -186,6 +186,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             })));
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
+                            if scopes.len() == 1 {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             let scope = scopes.pop().unwrap();
                             scopes
                                 .last_mut()
-- 
2.43.0


From 55fa2653f6b33e4dd476913b18cb205fde636ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 04/14] fix: reject unnamed `Option<Vec<T>>` fields instead of
 panicking

`#[derive(StructMeta)]` reached `unreachable!()` for an unnamed field of
type `Option<Vec<T>>`.
---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index a745138..f499917 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From 5a7f98194ea05ca8284d72be4459b8fa71edf807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 05/14] fix: derive(Parse) supports generic enums

The per-variant helper functions did not declare the generics of the enum,
so deriving failed with `missing generics`.
---
 structmeta-derive/src/parse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..00307f6 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(&input, data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,9 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(input: &DeriveInput, data: &DataEnum) -> Result<TokenStream> {
+    let self_ident = &input.ident;
+    let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use syn::ext::*;
@@ -63,7 +65,7 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            fn #fn_ident #impl_g (input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident #ty_g> #where_clause {
                 #fn_expr
             }
         };
-- 
2.43.0


From a075deb9054b355b115be8c963459ca0da57838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/14] fix: do not rely on `syn` and `structmeta` names at the
 derive site

`use syn::ext::*` and `structmeta::NameArgs` were resolved in the user's
module, so deriving failed without a direct `syn` dependency or when a
module of that name is in scope.
---
 structmeta-derive/src/parse.rs       | 4 ++--
 structmeta-derive/src/struct_meta.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 00307f6..060c341 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -48,7 +48,7 @@ fn code_from_enum(input: &DeriveInput, data: &DataEnum) -> Result<TokenStream> {
     let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -270,7 +270,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f499917..d10c980 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -753,7 +753,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From c768f117741398ecbb39dcb1167718b0d50e0101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/14] fix: recognise field types passed through macro_rules
 fragments

`$t:ty` fragments reach the derive as `Type::Group`, so `Option<T>`,
`bool`, `Vec<T>`, ... were treated as plain values.
---
 structmeta-derive/src/syn_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..6d35d7a 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -71,6 +71,11 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     }
 }
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    let mut ty = ty;
+    // A type passed through a `macro_rules!` fragment is wrapped in an invisible group.
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From 94acf84edaba8f098b92760daa876eda1a3b1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 08/14] fix: derive(ToTokens) supports enums without variants

`match self {}` on a reference is rejected as non-exhaustive.
---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 1111d87..1b8dd69 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -57,6 +57,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             }
         });
     }
+    if arms.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
     Ok(quote! {
         match self {
             #(#arms)*
-- 
2.43.0


From 1e785cef10e34199e2e1be7702464e18bbef052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 09/14] fix: derive(Parse) for enums accepts `Self` in field
 types and where clauses

---
 structmeta-derive/src/parse.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 060c341..687edb6 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,9 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(input: &DeriveInput, data: &DataEnum) -> Result<TokenStream> {
-    let self_ident = &input.ident;
-    let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use ::structmeta::helpers::exports::syn::ext::*;
@@ -59,15 +57,16 @@ fn code_from_enum(input: &DeriveInput, data: &DataEnum) -> Result<TokenStream> {
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
+        // A closure, because `Self` and the generics in scope cannot be used in a nested function.
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident #impl_g (input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident #ty_g> #where_clause {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0


From 7ea16004aed62b01d36ac6a1e2d47b6c21b0c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 10/14] fix: the message for a missing list parameter shows its
 form name(...)

---
 structmeta-derive/src/struct_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index d10c980..0e30464 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -425,11 +425,11 @@ impl NamedParam<'_> {
             match self.ty {
                 NamedParamType::Flag => quote!(::structmeta::Flag { span: #temp_ident }),
                 NamedParamType::Bool => quote!(#temp_ident.is_some()),
-                NamedParamType::Value { .. } | NamedParamType::NameValue { .. } => {
+                NamedParamType::Value { is_vec: false, .. } | NamedParamType::NameValue { .. } => {
                     let msg = format!("missing argument `{} = ...`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-                NamedParamType::NameArgs { .. } => {
+                NamedParamType::Value { is_vec: true, .. } | NamedParamType::NameArgs { .. } => {
                     let msg = format!("missing argument `{}(...)`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-- 
2.43.0


From b7e388301b224a88a1c4397d719b9cca692dc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 11/14] fix: generated code does not depend on what prelude
 names mean at the place of use

---
 structmeta-derive/src/parse.rs       |  8 +++---
 structmeta-derive/src/struct_meta.rs | 38 ++++++++++++++--------------
 structmeta/src/helpers.rs            |  4 +--
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 687edb6..d5e740e 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -78,9 +78,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 input_is_forked = true;
                 quote! {
                     let fork = input.fork();
-                    if let Ok(value) = #fn_ident(&fork) {
+                    if let ::core::result::Result::Ok(value) = #fn_ident(&fork) {
                         ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
-                        return Ok(value);
+                        return ::core::result::Result::Ok(value);
                     }
                 }
             }
@@ -102,7 +102,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     }
     if !input_is_moved {
         ts.extend(quote! {
-            Err(input.error("parse failed."))
+            ::core::result::Result::Err(input.error("parse failed."))
         });
     }
     Ok(ts)
@@ -271,7 +271,7 @@ fn code_from_fields(
     Ok(quote! {
         use ::structmeta::helpers::exports::syn::ext::*;
         #ts
-        Ok(#self_path #init)
+        ::core::result::Result::Ok(#self_path #init)
     })
 }
 
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 0e30464..770c7dd 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -115,7 +115,7 @@ impl<'a> Params<'a> {
                 );
                 ts.extend(quote! {
                     if input.is_empty () {
-                        return Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
+                        return ::core::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
                     }
                     input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?;
                 });
@@ -137,7 +137,7 @@ impl<'a> Params<'a> {
             p.build_ctor_arg(false, &mut ctor_args);
         } else {
             arms_unnamed.push(quote! {
-                _ => { return Err(input.error("too many unnamed parameter")); }
+                _ => { return ::core::result::Result::Err(input.error("too many unnamed parameter")); }
             });
         }
         for p in self.named.values() {
@@ -193,7 +193,7 @@ impl<'a> Params<'a> {
         {
             quote! {
                 if named_used {
-                    return Err(input.error("cannot use unnamed parameter after named parameter"));
+                    return ::core::result::Result::Err(input.error("cannot use unnamed parameter after named parameter"));
                 }
                 match unnamed_index {
                     #(#arms_unnamed)*
@@ -202,7 +202,7 @@ impl<'a> Params<'a> {
             }
         } else {
             quote! {
-                return Err(input.error("cannot use unnamed parameter"));
+                return ::core::result::Result::Err(input.error("cannot use unnamed parameter"));
             }
         };
         let name_filter = self.name_filter.to_code();
@@ -219,7 +219,7 @@ impl<'a> Params<'a> {
                     }
                 }
                 is_next = true;
-                if let Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
+                if let ::core::option::Option::Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
                     &[#(#flag_names,)*],
                     #flag_rest,
                     &[#(#name_value_names,)*],
@@ -232,14 +232,14 @@ impl<'a> Params<'a> {
                     named_used = true;
                     match index {
                         #(#arms_named)*
-                        _ => unreachable!()
+                        _ => ::std::unreachable!()
                     }
 
                 } else {
                     #ts_parse_unnamed
                 }
             }
-            Ok(Self #ctor_args)
+            ::core::result::Result::Ok(Self #ctor_args)
         });
 
         ts
@@ -359,7 +359,7 @@ impl<'a> ParamInfo<'a> {
     fn build_let_none(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.ty;
-        quote!(let mut #temp_ident : Option<#ty> = None;)
+        quote!(let mut #temp_ident : ::core::option::Option<#ty> = ::core::option::Option::None;)
     }
     fn build_let_vec_new(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
@@ -396,7 +396,7 @@ struct UnnamedParam<'a> {
 impl NamedParam<'_> {
     fn build_let(&self) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
-        quote!(let mut #temp_ident = None;)
+        quote!(let mut #temp_ident = ::core::option::Option::None;)
     }
     fn build_arm_parse(&self, index: usize, kind: ArgKind) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
@@ -406,11 +406,11 @@ impl NamedParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let span_ident = call_site_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
+            ::structmeta::helpers::NameIndex::#var(::core::result::Result::Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, #msg));
+                    return ::core::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, #msg));
                 }
-                #temp_ident = Some(#expr);
+                #temp_ident = ::core::option::Option::Some(#expr);
             }
         }
     }
@@ -450,9 +450,9 @@ impl RestParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let span_ident = call_site_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Err(name)) => {
+            ::structmeta::helpers::NameIndex::#var(::core::result::Result::Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, format!("parameter `{}` specified more than once", name)));
+                    return ::core::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -469,7 +469,7 @@ impl UnnamedParam<'_> {
         let expr = build_parse_expr(self.ty, span);
         quote_spanned! { span=>
             #index => {
-                #temp_ident = Some(#expr);
+                #temp_ident = ::core::option::Option::Some(#expr);
             }
         }
     }
@@ -727,11 +727,11 @@ impl<'a> NamedParamType<'a> {
             }
             NamedParamType::NameValue { ty, is_option } => {
                 let value = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::core::option::Option::None)
                 } else {
                     let value = build_parse_expr(ty, span);
                     if *is_option {
-                        quote!(Some(#value))
+                        quote!(::core::option::Option::Some(#value))
                     } else {
                         value
                     }
@@ -744,11 +744,11 @@ impl<'a> NamedParamType<'a> {
                 is_vec,
             } => {
                 let args = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::core::option::Option::None)
                 } else {
                     let args = build_parse_expr_name_args(ty, *is_vec, span);
                     if *is_option {
-                        quote!(Some(#args))
+                        quote!(::core::option::Option::Some(#args))
                     } else {
                         args
                     }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index f213d53..e84a914 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -251,11 +251,11 @@ pub fn parse_macro_delimiter<'a>(
 macro_rules! helpers_parse_macro_delimiter {
     ($content:ident in $input:ident) => {
         match $crate::helpers::parse_macro_delimiter($input) {
-            Ok((token, content)) => {
+            ::core::result::Result::Ok((token, content)) => {
                 $content = content;
                 token
             }
-            Err(e) => return Err(e),
+            ::core::result::Result::Err(e) => return ::core::result::Result::Err(e),
         }
     };
 }
-- 
2.43.0


From 6f8e68d344062341087dc50d45e52d69d20f3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 12/14] fix: generated code does not depend on which traits are
 in scope at the place of use

---
 structmeta-derive/src/struct_meta.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 770c7dd..71870e0 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -451,7 +451,7 @@ impl RestParam<'_> {
         let span_ident = call_site_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(::core::result::Result::Err(name)) => {
-                if #temp_ident.insert(name.to_string(), #expr).is_some() {
+                if ::std::collections::HashMap::insert(&mut #temp_ident, ::std::string::ToString::to_string(&name), #expr).is_some() {
                     return ::core::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#span_ident, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
@@ -479,7 +479,7 @@ impl UnnamedParam<'_> {
         let expr = build_parse_expr(self.ty, span);
         quote_spanned! { span=>
             _ => {
-                #temp_ident.push(#expr);
+                ::std::vec::Vec::push(&mut #temp_ident, #expr);
             }
         }
     }
@@ -774,7 +774,8 @@ fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
     let content = call_site_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
+        quote_spanned!(span=> ::core::iter::Iterator::collect(::core::iter::IntoIterator::into_iter(
+            ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?)))
     } else {
         quote_spanned!(span=> #content.parse::<#ty>()?)
     };
-- 
2.43.0


From 099b20ac6c302c6c8c48ff28d1649f72ff1c33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 13/14] fix: variables of generated code are not named after
 fields and variants

The names of fields and variants need not be names for variables: with
`#[allow(non_snake_case)]` on the definition, `Parse` and `ToTokens` made the
compiler warn, and `#![forbid(non_snake_case)]` rejected the `allow` in the code
for enums.
---
 structmeta-derive/src/parse.rs     |  5 ++---
 structmeta-derive/src/to_tokens.rs | 14 +++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index d5e740e..cd423b9 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -54,7 +54,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
         let variant = &data.variants[index];
         let variant_ident = &variant.ident;
         let is_last = index == data.variants.len() - 1;
-        let fn_ident = format_ident!("_parse_{}", &variant.ident);
+        let fn_ident = format_ident!("_parse_{}", index);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
             quote!(Self::#variant_ident),
@@ -63,7 +63,6 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
         )?;
         // A closure, because `Self` and the generics in scope cannot be used in a nested function.
         let fn_def = quote! {
-            #[allow(non_snake_case)]
             let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
             };
@@ -277,7 +276,7 @@ fn code_from_fields(
 
 fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_{}", index, span = ident.span())
     } else {
         format_ident!("_{}", index)
     }
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 1b8dd69..416795c 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -72,15 +72,15 @@ fn to_pattern(self_path: TokenStream, fields: &Fields) -> TokenStream {
         Fields::Unit => self_path,
         Fields::Unnamed(_) => {
             for (index, field) in fields.iter().enumerate() {
-                let var_ident = to_var_ident(Some(index), &field.ident);
+                let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#var_ident));
             }
             quote!( #self_path( #(#vars,)*))
         }
         Fields::Named(_) => {
-            for field in fields.iter() {
+            for (index, field) in fields.iter().enumerate() {
                 let field_ident = &field.ident;
-                let var_ident = to_var_ident(None, field_ident);
+                let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#field_ident : #var_ident));
             }
             quote!( #self_path { #(#vars,)* } )
@@ -174,7 +174,7 @@ impl Scope<'_> {
 fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     let mut scopes = vec![Scope::new(None)];
     for (index, field) in fields.iter().enumerate() {
-        let ident = to_var_ident(Some(index), &field.ident);
+        let ident = to_var_ident(index, &field.ident);
         let mut field_to_tokens = true;
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
@@ -227,10 +227,10 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     }
     unreachable!()
 }
-fn to_var_ident(index: Option<usize>, ident: &Option<Ident>) -> Ident {
+fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_{}", index, span = ident.span())
     } else {
-        format_ident!("_{}", index.unwrap())
+        format_ident!("_{}", index)
     }
 }
-- 
2.43.0


From 1359ef79d32d32bd73fac8917f4bb93617c04eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 14/14] fix: generated code raises no deprecation warnings

The implementations for a deprecated type, and `ToTokens` for deprecated fields,
made the compiler warn about the derive's own use of them.
---
 structmeta-derive/src/syn_utils.rs | 11 +++++++++--
 structmeta-derive/src/to_tokens.rs |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 6d35d7a..ce90d3a 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
     DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
@@ -31,7 +31,7 @@ pub fn impl_trait(
     wheres: &[WherePredicate],
     contents: TokenStream,
 ) -> TokenStream {
-    let ty = &input.ident;
+    let ty = generated_ident(&input.ident);
     let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut wheres = wheres.to_vec();
     if let Some(where_clause) = where_clause {
@@ -49,6 +49,13 @@ pub fn impl_trait(
         }
     }
 }
+
+/// The identifier as one of the generated code, so that the lints about its use (`deprecated`) do not apply.
+pub fn generated_ident(ident: &Ident) -> Ident {
+    let mut ident = ident.clone();
+    ident.set_span(Span::call_site().located_at(ident.span()));
+    ident
+}
 pub fn impl_trait_result(
     input: &DeriveInput,
     trait_path: &Path,
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 416795c..51323c4 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -79,7 +79,7 @@ fn to_pattern(self_path: TokenStream, fields: &Fields) -> TokenStream {
         }
         Fields::Named(_) => {
             for (index, field) in fields.iter().enumerate() {
-                let field_ident = &field.ident;
+                let field_ident = field.ident.as_ref().map(generated_ident);
                 let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#field_ident : #var_ident));
             }
-- 
2.43.0

