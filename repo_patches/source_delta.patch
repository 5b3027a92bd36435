From 50fa74cdb0679c437224758584a916fb80a7b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 1/6] fix: do not drop uninitialised memory or leak elements
 when parsing arrays

[P; N]::parse assigned through a pointer to uninitialised memory, which
drops the old (uninitialised) value when P needs dropping, and leaked the
elements already parsed when a later one failed.
---
 nommy/src/impls.rs | 22 +++++++++++-----------
 nommy/src/lib.rs   |  2 --
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..da91b4f 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -1,7 +1,7 @@
 //! Implemtations of [`Parse`] and [`Peek`] for types in
 //! the rust standard library
 use crate::{eyre, Buffer, Context, Parse};
-use std::mem::MaybeUninit;
+use std::convert::TryInto;
 
 /// Result is `None` if parsing `P` fails, otherwise, result is `Some(p)`
 impl<P: Parse<T>, T> Parse<T> for Option<P> {
@@ -155,17 +155,17 @@ impl<P: Parse<T>, T> Parse<T> for Vec1<P> {
 /// ```
 impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
     fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
-        // safety: we only return the new data if no errors occured,
-        // and if no errors occured, then we definitely filled all N spaces
-        // therefore the array was initialised.
-        unsafe {
-            let mut output = MaybeUninit::uninit_array();
-            for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
-            }
+        // elements are collected in a `Vec` first, so that those already parsed
+        // are dropped properly if a later one fails
+        let mut output = Vec::with_capacity(N);
+        for i in 0..N {
+            output
+                .push(P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?);
+        }
 
-            Ok(MaybeUninit::array_assume_init(output))
+        match output.try_into() {
+            Ok(output) => Ok(output),
+            Err(_) => unreachable!("exactly N elements were parsed"),
         }
     }
 
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index a83100a..aee2981 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -1,7 +1,5 @@
 #![allow(incomplete_features)]
 #![feature(array_map)]
-#![feature(maybe_uninit_uninit_array)]
-#![feature(maybe_uninit_array_assume_init)]
 #![feature(const_generics)]
 #![deny(missing_docs)]
 #![warn(clippy::pedantic)]
-- 
2.43.0


From cf71359026813d809c2ed99843254822c5907c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 2/6] fix: count characters, not bytes, when matching a text
 tag

A tag with multi-byte characters took too many characters from the input,
so it never matched unless the input ended there.
---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From b3d9a0df0d7abdf0201c10c76dd4ee1b70a9be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 3/6] fix: make WhileNot1::peek agree with parse

It never returned when the input ended before one of the characters, and it
counted the first character even when there was none.
---
 nommy/src/text/many.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..46dcd3a 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,18 +87,14 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
-        }
-        loop {
-            let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
-                break;
-            }
-            let pos = cursor.position();
-            input.fast_forward(pos);
+        let mut found = false;
+
+        while input.peek_ahead(0).is_some() && !OneOf::<CHARS>::peek(&mut input.cursor()) {
+            input.fast_forward(1);
+            found = true;
         }
-        true
+
+        found
     }
 }
 
-- 
2.43.0


From 4daa29d9f48626c7bbcd0ab295c8f1a03d1aebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 4/6] fix: ignore tokens after a list field

Derived parsers skipped the ignored types after every part except a field
with an inner_parser.
---
 nommy-derive/src/fn_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..ff956f0 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -112,8 +112,8 @@ impl<'a> Builder<'a> {
                 &format!("failed to parse field `{}`", name),
             ));
             self.peek_impl.extend(self.peeker_peek_tokens(&parser));
-            self.ignore();
         }
+        self.ignore();
 
         self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", name));
     }
-- 
2.43.0


From a659b2c57e2464cd0d56497bd721bf1a3841cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 5/6] fix: make the derived peek of a list field agree with
 parse

It looked for the elements without their separators, so it stopped after
the first one and peek answered differently from parse.
---
 nommy-derive/src/fn_impl.rs | 62 ++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index ff956f0..ae53c41 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -101,7 +101,7 @@ impl<'a> Builder<'a> {
             self.add_where(&parser);
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl.extend(self.peeker_peek_vec_tokens(&attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -232,7 +232,12 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+    /// The least number of elements allowed, and the call that parses them into a `Vec<#output>`
+    fn parse_vec_call(
+        &self,
+        attrs: &VecFieldAttr,
+        output: impl ToTokens,
+    ) -> (TokenStream, TokenStream) {
         let generic = &self.generic;
 
         let parser: Option<&syn::Type> = (&attrs.parser).into();
@@ -253,51 +258,46 @@ impl<'a> Builder<'a> {
             }
         };
 
-        if let Some(sep) = &attrs.seperated_by {
+        let call = if let Some(sep) = &attrs.seperated_by {
             match &attrs.trailing {
                 Some(true) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, #output, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 Some(false) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, #output, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 None => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by::<#parser, #output, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
             }
         } else {
             quote! {
-                let #name = ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)?;
-                if #name.len() < #min {
-                    return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                }
+                ::nommy::vec::parse_vec::<#parser, #output, __ParseIgnore, #generic, _>(#max, input)
+            }
+        };
+
+        (min, call)
+    }
+
+    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+        let (min, call) = self.parse_vec_call(attrs, quote! { _ });
+        quote! {
+            let #name = #call?;
+            if #name.len() < #min {
+                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
             }
         }
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
+    pub fn peeker_peek_vec_tokens(&self, attrs: &VecFieldAttr) -> TokenStream {
+        let parser: Option<&syn::Type> = (&attrs.parser).into();
+        let parser = parser.unwrap();
 
+        let (min, call) = self.parse_vec_call(attrs, parser);
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
-
-                #after_each
+            match #call {
+                Ok(list) if list.len() >= #min => {}
+                _ => return false,
             }
         }
     }
-- 
2.43.0


From 65f45195c358cde23d37be5cd838e846af73210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 6/6] fix: do not read past the end of the input in
 WhileNot1::parse

A cursor counts a `next` that finds nothing, so a list field whose elements end in
a WhileNot1 moved a peeking cursor one further than parsing it consumes.
---
 nommy/src/text/many.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index 46dcd3a..0c1a19f 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -72,11 +72,9 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
         let mut output = String::new();
 
-        while !OneOf::<CHARS>::peek(&mut input.cursor()) {
-            match input.next() {
-                None => break,
-                Some(c) => output.push(c),
-            }
+        // `next` is not called at the end of the input: a cursor would count it
+        while input.peek_ahead(0).is_some() && !OneOf::<CHARS>::peek(&mut input.cursor()) {
+            output.extend(input.next());
         }
 
         if output.is_empty() {
-- 
2.43.0

