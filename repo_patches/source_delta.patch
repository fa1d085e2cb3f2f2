From 55d0450f33c0f031aa79c3a3a3484d2eb658a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 01/16] fix: refuse arrays that are too short for a tuple
 instead of panicking

---
 src/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..9965894 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,11 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                Ok((for_tuples!( #( Tuple::try_from_cbor_value(
+                    values.next().ok_or(DecodeError::MissingField)?
+                )? ),* )))
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From ddb0d2c7eb92b6019e0e73245a434894471720a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 02/16] fix: refuse arrays with more elements than the target
 tuple

---
 src/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 9965894..441dc16 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -49,9 +49,13 @@ impl Decode for Tuple {
         match value {
             Value::Array(values) => {
                 let mut values = values.into_iter();
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(
+                let result = (for_tuples!( #( Tuple::try_from_cbor_value(
                     values.next().ok_or(DecodeError::MissingField)?
-                )? ),* )))
+                )? ),* ));
+                if values.next().is_some() {
+                    return Err(DecodeError::UnknownField);
+                }
+                Ok(result)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 200e58df4be9fd5f44198fbfddd55700f09e7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 03/16] fix: decode all floats as undefined in non-strict mode

---
 value/src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..21e9813 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -237,6 +237,10 @@ impl<'a> Reader<'a> {
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
         }
+        if additional_info > Constants::ADDITIONAL_INFORMATION_1_BYTE {
+            // Floating point numbers, never confuse their bits with the number of a simple value.
+            return Ok(Value::Simple(SimpleValue::Undefined));
+        }
         match SimpleValue::from_integer(size_value) {
             Some(simple_value) => Ok(Value::Simple(simple_value)),
             None if self.non_strict => Ok(Value::Simple(SimpleValue::Undefined)),
-- 
2.43.0


From e2c369193210df87251f06951588fe30b61c5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 04/16] fix: do not truncate negative integers below i64::MIN
 in serde deserialization

---
 src/serde/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
-- 
2.43.0


From b63b318b10d651c028825736973bac89debe82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 05/16] fix: refuse arrays with more elements than expected in
 serde deserialization

---
 src/serde/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index d8f2d58..a9d11b9 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -119,7 +119,14 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let len = items.len();
+        let mut seq = SeqAccessImpl(items.into_iter());
+        let result = visitor.visit_seq(&mut seq)?;
+        if seq.0.next().is_some() {
+            // Do not silently drop elements that the target has no place for.
+            return Err(Error::invalid_length(len, &"fewer elements in array"));
+        }
+        Ok(result)
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From fec15b6187a18bda8dc21a5ad713ccbb9032e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 06/16] fix: encode HashSet elements in a deterministic order

---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..2f1c09a 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        // The iteration order is arbitrary, so sort elements to make the encoding deterministic.
+        let mut values: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        values.sort();
+        Value::Array(values)
     }
 }
 
-- 
2.43.0


From e4323b43e4a6693485f6617c1d18c946a9c5e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 07/16] fix: sort map entries by encoded key so that maps
 inside keys are canonical

---
 value/src/writer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..b617429 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -79,16 +79,21 @@ impl<'a> Writer<'a> {
                     self.encode_cbor(el, remaining_depth.map(|d| d - 1))?;
                 }
             }
-            Value::Map(mut map) => {
-                map.sort_by(|a, b| a.0.cmp(&b.0));
-                let map_len = map.len();
-                map.dedup_by(|a, b| a.0.eq(&b.0));
-                if map_len != map.len() {
+            Value::Map(map) => {
+                // Sort by encoded keys, as keys can contain maps which are not sorted yet.
+                let mut items = Vec::with_capacity(map.len());
+                for (k, v) in map {
+                    let mut encoded_key = Vec::new();
+                    Writer::new(&mut encoded_key).encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                    items.push((encoded_key, v));
+                }
+                items.sort_by(|a, b| a.0.cmp(&b.0));
+                if items.windows(2).any(|w| w[0].0 == w[1].0) {
                     return Err(EncoderError::DuplicateMapKey);
                 }
-                self.start_item(type_label, map_len as u64);
-                for (k, v) in map {
-                    self.encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                self.start_item(type_label, items.len() as u64);
+                for (encoded_key, v) in items {
+                    self.encoded_cbor.extend(encoded_key);
                     self.encode_cbor(v, remaining_depth.map(|d| d - 1))?;
                 }
             }
-- 
2.43.0


From d96a53bebd84db2cdf45ebd966ed72a620fa3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 08/16] fix: do not panic when encoding unit variants of
 internally tagged enums

---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..848c53a 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Unit variants of internally tagged enums are maps with only the tag.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 4b4b734b51cd2d35a8da99347fa8e87db17c672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 09/16] fix: apply serialize_with to optional fields

---
 derive/src/encode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 848c53a..395ca81 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -144,11 +144,13 @@ fn derive_struct(
                         }),
                 };
 
-                let field_value = if let Some(custom_encode_fn) = &field.serialize_with {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#custom_encode_fn(&#field_binding)))
+                let field_source = if let Some(custom_encode_fn) = &field.serialize_with {
+                    quote!(#custom_encode_fn(&#field_binding))
                 } else {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_binding))
+                    quote!(#field_binding)
                 };
+                let field_value =
+                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_source));
 
                 if as_array {
                     // Output the fields as a CBOR array.
@@ -173,7 +175,7 @@ fn derive_struct(
                         match &field.skip_serializing_if {
                             None => {
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_source) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From bf197639a66fb0845917e4ec556f020cba5031a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 10/16] fix: honour allow_unknown for fields with keys that
 sort before known ones

---
 derive/src/decode.rs |  9 +++++++--
 src/macros.rs        | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..b4eeaae 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,8 +148,13 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_fn = if allow_unknown {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_allow_unknown)
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict)
+                        };
                         let field_value = quote!({
                             let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..901b61b 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -26,3 +26,27 @@ pub fn destructure_cbor_map_peek_value_strict(
         }
     }
 }
+
+/// This function is an internal detail of the Decode derive macro, but has public visibility so
+/// that users of the macro can use it.
+///
+/// Same as [`destructure_cbor_map_peek_value_strict`], but skips any unexpected fields.
+pub fn destructure_cbor_map_peek_value_allow_unknown(
+    it: &mut Peekable<std::vec::IntoIter<(Value, Value)>>,
+    needle: Value,
+) -> Result<Option<Value>, DecodeError> {
+    while it.peek().map_or(false, |item| item.0 < needle) {
+        it.next();
+    }
+
+    if it.peek().map_or(true, |item| item.0 != needle) {
+        return Ok(None);
+    }
+    let value = it.next().unwrap().1;
+
+    match it.peek() {
+        // Reject repeated fields.
+        Some(item) if item.0 == needle => Err(DecodeError::UnknownField),
+        _ => Ok(Some(value)),
+    }
+}
-- 
2.43.0


From bf3832cfc8d3af52df25ac410fa1dd1e72eddce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 11/16] fix: refuse payloads when decoding unit structs and
 unit variants

---
 derive/src/decode.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index b4eeaae..46962e2 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -120,8 +120,18 @@ fn derive_struct(
 
             (extract_value, field_map_items)
         } else if fields.is_unit() {
-            // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
+            // This is a unit struct with no fields, it must not have any payload.
+            let extract_value = quote! {
+                match value {
+                    __cbor::Value::Simple(
+                        __cbor::SimpleValue::NullValue | __cbor::SimpleValue::Undefined,
+                    ) => vec![],
+                    __cbor::Value::Map(map) => map,
+                    _ => return Err(__cbor::DecodeError::UnexpectedType),
+                }
+            };
+
+            (extract_value, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
-- 
2.43.0


From ef4c8bbe6c9bbf19fd56bc178c559b00dade81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 12/16] fix: decode unit structs with as_array from null, as
 they are encoded

---
 derive/src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 46962e2..b6e2dcc 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -22,7 +22,8 @@ pub fn derive(input: DeriveInput) -> TokenStream {
             let inner = derive_struct(
                 &dec.ident,
                 dec.transparent.is_present(),
-                dec.as_array.is_present(),
+                // Unit structs encode as null even with as_array.
+                dec.as_array.is_present() && !fields.is_unit(),
                 dec.allow_unknown.is_present(),
                 fields,
                 quote!(Self),
-- 
2.43.0


From b450438de4bf8710ee6c89ef72fcde5c2dff88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 13/16] fix: order HashSet elements by their encoding so that
 nested hashed maps stay deterministic

---
 src/encode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/encode.rs b/src/encode.rs
index 2f1c09a..20ea8c0 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use impl_trait_for_tuples::impl_for_tuples;
 
-use crate::{SimpleValue, Value};
+use crate::{writer::write_nested, SimpleValue, Value};
 
 /// Trait for types that can be encoded into CBOR.
 pub trait Encode {
@@ -289,9 +289,14 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        // The iteration order is arbitrary, so sort elements to make the encoding deterministic.
+        // The iteration order is arbitrary, so sort elements to make the encoding deterministic. The
+        // encodings need to be compared as map entries inside elements may be in any order.
         let mut values: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
-        values.sort();
+        values.sort_by_cached_key(|value| {
+            let mut encoded = Vec::new();
+            let _ = write_nested(value.clone(), &mut encoded, None);
+            encoded
+        });
         Value::Array(values)
     }
 }
-- 
2.43.0


From 89a6e2c6361882bb4cb09a1b4bfcdc2118b72107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 14/16] fix: refuse the transparent attribute on unit structs
 when deriving Encode

---
 derive/src/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 395ca81..bae915e 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -86,7 +86,7 @@ fn derive_struct(
     fields: darling::ast::Fields<&Field>,
     field_bindings: Option<Vec<Ident>>,
 ) -> DeriveResult {
-    if fields.is_unit() && !unit_as_struct {
+    if fields.is_unit() && !unit_as_struct && !transparent {
         return DeriveResult {
             enc_impl: quote! { __cbor::Value::Simple(__cbor::SimpleValue::NullValue) },
             opt_enc_impl: quote! { None },
-- 
2.43.0


From 34927165ae5e2bce75d388119a3814d23d2af520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 15/16] fix: leave the raw prefix out of the names of fields
 and variants in derived codecs

---
 derive/src/common.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 4358a6d..c2276f1 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -3,7 +3,7 @@ use darling::{util::Flag, Error, FromDeriveInput, FromField, FromVariant, Result
 use oasis_cbor_value::values::IntoCborValue;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::{Expr, Generics, Ident, Lit, Path, Type};
+use syn::{ext::IdentExt, Expr, Generics, Ident, Lit, Path, Type};
 
 #[derive(FromDeriveInput)]
 #[darling(supports(any), attributes(cbor))]
@@ -124,7 +124,7 @@ impl Field {
             .map(Key::to_cbor_key_expr)
             .unwrap_or_else(|| {
                 // No explicit rename, use identifier name.
-                let ident = self.ident.as_ref().unwrap().to_string();
+                let ident = self.ident.as_ref().unwrap().unraw().to_string();
                 quote!( __cbor::values::IntoCborValue::into_cbor_value(#ident) )
             })
     }
@@ -135,7 +135,7 @@ impl Field {
             .map(Key::to_cbor_key)
             .unwrap_or_else(|| {
                 // No explicit rename, use identifier name.
-                let ident = self.ident.as_ref().unwrap().to_string();
+                let ident = self.ident.as_ref().unwrap().unraw().to_string();
                 ident.into_cbor_value()
             })
     }
@@ -177,7 +177,7 @@ impl Variant {
             .map(Key::to_cbor_key_expr)
             .unwrap_or_else(|| {
                 // No explicit rename, use identifier name.
-                let ident = self.ident.to_string();
+                let ident = self.ident.unraw().to_string();
                 quote!( __cbor::values::IntoCborValue::into_cbor_value(#ident) )
             })
     }
-- 
2.43.0


From 53b4543f47fd29b3c2f59c7a9be4190ecbcf1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 16/16] fix: do not treat enums with skipped or embedded
 variants as always encoding as maps

---
 derive/src/encode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index bae915e..690eaae 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -274,8 +274,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
             };
 
             if variant.skip.is_present() {
-                // If we need to skip serializing this variant, serialize into undefined.
-                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, true);
+                // If we need to skip serializing this variant, serialize into undefined, which is not a map.
+                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, false);
             }
 
             if variant.embed.is_present() {
@@ -289,7 +289,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                // We cannot be sure that the embedded enum encodes as map.
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, false);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
-- 
2.43.0

