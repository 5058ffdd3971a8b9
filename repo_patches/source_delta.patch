From 9374c27fc2d6ff3ec6f243193503a8ddddebf06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 01/16] fix: import write_bytes from core::ptr, so that no_std
 builds are accepted by current nightly compilers

---
 packed_struct/src/internal_prelude/no_std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..2a31c7e 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -10,7 +10,7 @@ pub use core::ops::Range;
 pub use core::num::Wrapping;
 pub use core::cmp::*;
 pub use core::mem;
-pub use core::intrinsics::write_bytes;
+pub use core::ptr::write_bytes;
 pub use core::ops::Deref;
 pub use core::slice;
 pub use core::hash::{Hash, Hasher};
-- 
2.43.0


From 7f6d5d994dff10520a9886f6338f2abb9634aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 02/16] fix: make the alloc feature compile again (obsolete
 feature gate, Formatter missing from the prelude, format! in derived code)

---
 packed_struct/src/internal_prelude/no_std.rs   | 1 +
 packed_struct/src/lib.rs                       | 2 --
 packed_struct_codegen/src/pack_codegen_docs.rs | 4 ++--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 2a31c7e..a6e4bae 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -3,6 +3,7 @@ pub use core::marker::PhantomData;
 pub use core::iter;
 pub use core::cell::RefCell;
 pub use core::fmt;
+pub use core::fmt::Formatter;
 pub use core::fmt::{Debug, Display};
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
diff --git a/packed_struct/src/lib.rs b/packed_struct/src/lib.rs
index 833a200..52b4e6f 100644
--- a/packed_struct/src/lib.rs
+++ b/packed_struct/src/lib.rs
@@ -318,8 +318,6 @@
 
 #![cfg_attr(not(feature = "std"), no_std)]
 
-#![cfg_attr(feature="alloc", feature(alloc))]
-
 extern crate packed_struct_codegen;
 
 #[cfg(feature="alloc")]
diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..7918520 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -29,7 +29,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                     ::packed_struct::debug_fmt::DebugBitField {
                         name: #name_str.into(),
                         bits: #bits,
-                        display_value: format!("{:?}", src.#ident).into()
+                        display_value: #stdlib_prefix::format!("{:?}", src.#ident).into()
                     }
                 });
             },
@@ -42,7 +42,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                         ::packed_struct::debug_fmt::DebugBitField {
                             name: #name_str.into(),
                             bits: #bits,
-                            display_value: format!("{:?}", src.#ident[#i]).into()
+                            display_value: #stdlib_prefix::format!("{:?}", src.#ident[#i]).into()
                         }
                     });
                 }
-- 
2.43.0


From 6efb8a1919596565fb08ca00824f54d255c8d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 03/16] fix: reject arrays whose bit width is not a multiple of
 the number of elements

---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..bc38d65 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if (mp.bit_width % size) != 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From b2122b0e0406422cb093c42417497eb855db5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 04/16] fix: keep temporaries of the derived unpack apart from
 fields of the same name

---
 packed_struct_codegen/src/pack_codegen.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..0fb1cb5 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -4,6 +4,7 @@ extern crate syn;
 use crate::pack::*;
 use crate::pack_codegen_docs::*;
 use crate::common::*;
+use proc_macro2::Span;
 use syn::spanned::Spanned;
 use crate::utils::*;
 
@@ -17,7 +18,9 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
     let type_documentation = type_docs(parsed);
     let num_bytes = parsed.num_bytes;
     let num_bits = parsed.num_bits;
-    
+
+    // hygienic, can't be shadowed by a local that carries the name of a field
+    let unpack_src = syn::Ident::new("src", Span::mixed_site());
 
     let mut pack_fields = vec![];
     let mut unpack_fields = vec![];
@@ -25,7 +28,7 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
 
     {
         let mut reg  = |src: &dyn quote::ToTokens, target: &dyn quote::ToTokens, field: &FieldRegular| -> syn::Result<()> {
-            let bits = pack_bits(field);
+            let bits = pack_bits(field, &unpack_src);
 
             let pack = pack_field(src, field);
             let unpack = unpack_field(field)?;
@@ -64,7 +67,8 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let mut target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        target.set_span(Span::mixed_site());
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
@@ -121,7 +125,7 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
 
             #[inline]
             #[allow(unused_imports, unused_parens)]
-            fn unpack(src: &Self::ByteArray) -> #result_ty <#name, ::packed_struct::PackingError> {
+            fn unpack(#unpack_src: &Self::ByteArray) -> #result_ty <#name, ::packed_struct::PackingError> {
                 use ::packed_struct::*;
 
                 #(#unpack_fields)*
@@ -152,7 +156,7 @@ struct PackBitsCopy {
     unpack: proc_macro2::TokenStream
 }
 
-fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
+fn pack_bits(field: &FieldRegular, src: &syn::Ident) -> PackBitsCopy {
     // memcpy
     if (field.bit_range_rust.start % 8) == 0 && (field.bit_range_rust.end % 8) == 0 &&
        (field.bit_range_rust.len() % 8) == 0 && field.bit_range_rust.len() >= 8 
@@ -166,7 +170,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             },
             unpack: quote! {
                 let mut b = [0; (#end - #start)];
-                b[..].copy_from_slice(&src[#start..#end]);
+                b[..].copy_from_slice(&#src[#start..#end]);
                 b
             }
         }
@@ -203,7 +207,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             let bit_shift = emit_shift(-shift);
             unpack.push(quote! {
                 let _a = #i;
-                b[#i] |= (src[#dst_byte] #bit_shift) & #src_mask;
+                b[#i] |= (#src[#dst_byte] #bit_shift) & #src_mask;
             });
 
             if shift < 0 && (dst_byte - start_byte) <= packed_field_len {
@@ -219,7 +223,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
                 let bit_shift = emit_shift(-shift);
                 unpack.push(quote! {
                     let _b = #i;
-                    b[#i] |= (((src[#dst_byte + 1] as u16) #bit_shift) & #src_mask as u16) as u8;
+                    b[#i] |= (((#src[#dst_byte + 1] as u16) #bit_shift) & #src_mask as u16) as u8;
                 });
             } else if shift > 0 && (dst_byte - start_byte) <= packed_field_len && i < packed_field_len - 1 {
                 let shift = -(8-shift);
@@ -234,7 +238,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
                 let bit_shift = emit_shift(-shift);
                 unpack.push(quote! {
                     let _c = #i;
-                    b[#i + 1] |= (((src[#dst_byte] as u16) #bit_shift) & #src_mask as u16) as u8;
+                    b[#i + 1] |= (((#src[#dst_byte] as u16) #bit_shift) & #src_mask as u16) as u8;
                 });
             }
 
-- 
2.43.0


From 0e6be057f8fa8636478087947438f161075c8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 05/16] fix: report packed_struct and packed_field attributes
 that are malformed or have an unusable value

---
 packed_struct_codegen/src/pack_parse.rs       | 50 ++++++++++++-------
 .../src/pack_parse_attributes.rs              | 42 +++++++++++-----
 2 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index bc38d65..a17578d 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -14,7 +14,14 @@ use std::ops::Range;
 
 use crate::utils_syn::{get_expr_int_val, get_single_segment, tokens_to_string};
 
-pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str, wrong_attribute: &str) -> syn::Result<Vec<(String, String)>> {
+/// A `name = "value"` pair, with the location used for reporting errors.
+pub struct SubAttribute {
+    pub name: String,
+    pub value: String,
+    pub span: proc_macro2::Span
+}
+
+pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str, wrong_attribute: &str) -> syn::Result<Vec<SubAttribute>> {
     let mut r = vec![];
 
     for attr in attributes {
@@ -23,23 +30,28 @@ pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str,
         }
 
         if attr.path().is_ident(main_attribute) {
-            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated);
-            let nested = if let Ok(nested) = nested {
-                nested
-            } else {
+            if let Meta::Path(_) = attr.meta {
+                // no options given
                 continue;
-            };
+            }
+
+            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)?;
             for meta in nested {
-                match meta {            
-                    syn::Meta::Path(_) => (),
-                    syn::Meta::List(_) => (),
-                    syn::Meta::NameValue(nv) => {
-                        if let (Some(key), syn::Expr::Lit(lit)) = (nv.path.get_ident(), &nv.value) {
-                            if let syn::Lit::Str(lit) = &lit.lit {
-                                r.push((key.to_string(), lit.value()));
-                            }
-                        }
-                    }
+                let nv = match meta {
+                    Meta::NameValue(nv) => nv,
+                    _ => return Err(syn::Error::new(meta.span(), "Expected an attribute of the form name=\"value\"."))
+                };
+
+                let mut value = &nv.value;
+                while let syn::Expr::Group(group) = value {
+                    value = &group.expr;
+                }
+
+                match (nv.path.get_ident(), value) {
+                    (Some(key), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. })) => {
+                        r.push(SubAttribute { name: key.to_string(), value: lit.value(), span: lit.span() });
+                    },
+                    _ => return Err(syn::Error::new(nv.span(), "Expected an attribute of the form name=\"value\"."))
                 }
             }
         }
@@ -166,7 +178,7 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
         _ => { return Err(syn::Error::new(field.ty.span(), "Unsupported type")); }
     };
 
-    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?);
+    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?)?;
 
     let bits_position = field_attributes.iter().filter_map(|a| match a {
         &PackFieldAttribute::BitPosition(b) | &PackFieldAttribute::BytePosition(b) => Some(b),
@@ -242,7 +254,7 @@ fn parse_reg_field(field: &syn::Field, ty: &syn::Type, bit_range: &Range<usize>,
     let bit_width = (bit_range.end - bit_range.start) + 1;
     
     let ty_str = tokens_to_string(ty);
-    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?);
+    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?)?;
 
 
     let is_enum_ty = field_attributes.iter().filter_map(|a| match *a {
@@ -352,7 +364,7 @@ pub fn parse_num(s: &str) -> Result<usize, String> {
 
 
 pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
-    let attributes = PackStructAttribute::parse_all(&parse_sub_attributes(&ast.attrs, "packed_struct", "packed_field")?);
+    let attributes = PackStructAttribute::parse_all(&parse_sub_attributes(&ast.attrs, "packed_struct", "packed_field")?)?;
 
     let data_struct = match &ast.data {
         syn::Data::Struct(data) => data,
diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..701f437 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -19,6 +19,12 @@ impl PackStructAttributeKind {
             BitNumbering => "bit_numbering"
         }
     }
+
+    fn is_attr_name(name: &str) -> bool {
+        use self::PackStructAttributeKind::*;
+
+        [SizeBytes, DefaultIntEndianness, BitNumbering].iter().any(|k| k.get_attr_name() == name)
+    }
 }
 
 pub enum PackStructAttribute {
@@ -36,7 +42,7 @@ impl PackStructAttribute {
         }
 
         if name == PackStructAttributeKind::BitNumbering.get_attr_name() {
-            let b = BitNumbering::from_str(val).expect("Invalid bit numbering attribute value");
+            let b = BitNumbering::from_str(val).ok_or_else(|| format!("Invalid bit numbering value: {}", val))?;
             return Ok(PackStructAttribute::BitNumbering(b));
         }
 
@@ -55,14 +61,17 @@ impl PackStructAttribute {
         Err(format!("Unknown struct attribute: {}, value {}", name, val))
     }
 
-    pub fn parse_all(attributes: &[(String, String)]) -> Vec<Self> {
+    pub fn parse_all(attributes: &[SubAttribute]) -> syn::Result<Vec<Self>> {
         let mut r = vec![];
-        for (name, val) in attributes {
-            if let Ok(attr) = Self::parse(name, val) {
-                r.push(attr)
+        for attr in attributes {
+            match Self::parse(&attr.name, &attr.value) {
+                Ok(parsed) => r.push(parsed),
+                Err(e) if PackStructAttributeKind::is_attr_name(&attr.name) => return Err(syn::Error::new(attr.span, e)),
+                // the documentation allows attributes with other names
+                Err(_) => ()
             }
         }
-        r
+        Ok(r)
     }    
 }
 
@@ -93,6 +102,12 @@ impl PackFieldAttributeKind {
             Ty => "ty"
         }
     }
+
+    fn is_attr_name(name: &str) -> bool {
+        use self::PackFieldAttributeKind::*;
+
+        [IntEndiannes, BitPosition, BytePosition, SizeBytes, SizeBits, ElementSizeBytes, ElementSizeBits, Ty].iter().any(|k| k.get_attr_name() == name)
+    }
 }
 
 pub enum PackFieldAttribute {
@@ -111,7 +126,7 @@ pub enum TyKind {
 impl PackFieldAttribute {
     pub fn parse(name: &str, val: &str) -> Result<Self, String> {
         if name == PackFieldAttributeKind::IntEndiannes.get_attr_name() {            
-            return Ok(PackFieldAttribute::IntEndiannes(IntegerEndianness::from_str(val).unwrap()));
+            return Ok(PackFieldAttribute::IntEndiannes(IntegerEndianness::from_str(val).ok_or_else(|| format!("Invalid int endian value: {}", val))?));
         }
 
         if name == PackFieldAttributeKind::BitPosition.get_attr_name() {
@@ -151,14 +166,17 @@ impl PackFieldAttribute {
         Err(format!("Unsupported field attribute: {}, value {}", name, val))
     }
 
-    pub fn parse_all(attributes: &[(String, String)]) -> Vec<Self> {
+    pub fn parse_all(attributes: &[SubAttribute]) -> syn::Result<Vec<Self>> {
         let mut r = vec![];
-        for (name, val) in attributes {
-            if let Ok(attr) = Self::parse(name, val) {
-                r.push(attr)
+        for attr in attributes {
+            match Self::parse(&attr.name, &attr.value) {
+                Ok(parsed) => r.push(parsed),
+                Err(e) if PackFieldAttributeKind::is_attr_name(&attr.name) => return Err(syn::Error::new(attr.span, e)),
+                // the documentation allows attributes with other names
+                Err(_) => ()
             }
         }
-        r
+        Ok(r)
     }
 }
 
-- 
2.43.0


From fd0cceafda35811ccdd030c057d63b136971ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 06/16] fix: detect a backing type that holds every
 discriminant of an enum with negative values

---
 packed_struct_codegen/src/primitive_enum.rs | 25 +++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..7b8a55c 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,23 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        let any_negative = v.iter().any(|d| d.negative);
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
-                    "i64".into()
+            } else if any_negative {
+                // one negative value makes the type signed for all of the values
+                let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+                let fits = |min: i64, max: i64| n >= min as i128 && n <= max as i128;
+                if fits(<i8>::min_value() as i64, <i8>::max_value() as i64) {
+                    "i8".into()
+                } else if fits(<i16>::min_value() as i64, <i16>::max_value() as i64) {
+                    "i16".into()
+                } else if fits(<i32>::min_value() as i64, <i32>::max_value() as i64) {
+                    "i32".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i64".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From 69beae8a04b74ff22168af63bdf1fc34dcbfd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 07/16] fix: inclusive byte ranges given in descending order
 cover whole bytes

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 701f437..b2673ee 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -223,6 +223,7 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
+                let (start, end) = (start.min(end), start.max(end));
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
-- 
2.43.0


From 3aa7ca3c35b7232431ba222cf565bec81dc18ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 08/16] fix: treat a negated zero discriminant as zero

---
 packed_struct_codegen/src/primitive_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 7b8a55c..8eb232e 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -275,6 +275,9 @@ fn get_unitary_enum(input: &syn::DeriveInput) -> syn::Result<Vec<Variant>> {
             }
         };
 
+        // a negated zero is plain zero
+        let negative = negative && discriminant != 0;
+
         r.push(Variant {
             variant: variant.clone(),
             discriminant,
-- 
2.43.0


From fe44bc7954e11a85faa25e9cf7d0de691b3c17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 09/16] fix: reject enum discriminants that the given primitive
 type cannot represent

---
 packed_struct_codegen/src/primitive_enum.rs | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 8eb232e..536910f 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -106,6 +106,13 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
+    let prim_type_name = quote! { #prim_type }.to_string();
+    for d in &v {
+        if !d.fits_into(&prim_type_name) {
+            return Err(syn::Error::new(d.variant.span(), format!("The discriminant of this variant does not fit into {}.", prim_type_name)));
+        }
+    }
+
     let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
     
 
@@ -200,6 +207,23 @@ struct Variant {
 }
 
 impl Variant {
+    /// Can the primitive integer type represent the discriminant?
+    fn fits_into(&self, prim_type: &str) -> bool {
+        let n = if self.negative { -(self.discriminant as i128) } else { self.discriminant as i128 };
+        let (min, max) = match prim_type {
+            "u8" => (<u8>::min_value() as i128, <u8>::max_value() as i128),
+            "i8" => (<i8>::min_value() as i128, <i8>::max_value() as i128),
+            "u16" => (<u16>::min_value() as i128, <u16>::max_value() as i128),
+            "i16" => (<i16>::min_value() as i128, <i16>::max_value() as i128),
+            "u32" => (<u32>::min_value() as i128, <u32>::max_value() as i128),
+            "i32" => (<i32>::min_value() as i128, <i32>::max_value() as i128),
+            "u64" => (<u64>::min_value() as i128, <u64>::max_value() as i128),
+            "i64" => (<i64>::min_value() as i128, <i64>::max_value() as i128),
+            _ => return true
+        };
+        n >= min && n <= max
+    }
+
     fn get_discriminant(&self) -> proc_macro2::TokenStream {
         let s = format!("{}{}",
             self.discriminant,
-- 
2.43.0


From 92d732198cd7416fdb00eb12b34b1c73d163108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 10/16] fix: leave the raw identifier prefix out of names in
 display strings, parsing, debug output and docs

---
 packed_struct_codegen/src/pack_codegen_docs.rs | 13 +++++++------
 packed_struct_codegen/src/primitive_enum.rs    |  9 +++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 7918520..ceafe28 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -2,18 +2,19 @@ use crate::pack::*;
 use crate::common::*;
 use proc_macro2::Span;
 use quote::{ToTokens};
+use syn::ext::IdentExt;
 use syn::parse_quote;
 use crate::utils::*;
 
 pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream> {
     let (impl_generics, ty_generics, where_clause) = parsed.derive_input.generics.split_for_impl();
     let name = &parsed.derive_input.ident;
-    let snake_name = to_snake_case(&name.to_string());
+    let snake_name = to_snake_case(&name.unraw().to_string());
     let stdlib_prefix = collections_prefix();
     let debug_fields_fn = syn::Ident::new(&format!("debug_fields_{}", snake_name), Span::call_site());
 
     let display_header = format!("{} ({} {})",
-        name,
+        name.unraw(),
         parsed.num_bytes,
         if parsed.num_bytes == 1 { "byte" } else { "bytes" }
     );
@@ -22,7 +23,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     for field in &parsed.fields {
         match field {
             FieldKind::Regular { ref ident, ref field } => {
-                let name_str = &ident.to_string();
+                let name_str = &ident.unraw().to_string();
                 let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                 
                 debug_fields.push(quote! {
@@ -35,7 +36,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
             },
             FieldKind::Array { ref ident, ref elements, .. } => {
                 for (i, field) in elements.iter().enumerate() {
-                    let name_str = format!("{}[{}]", ident, i);
+                    let name_str = format!("{}[{}]", ident.unraw(), i);
                     let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                     
                     debug_fields.push(quote! {
@@ -132,11 +133,11 @@ pub fn type_docs(parsed: &PackStruct) -> proc_macro2::TokenStream {
         for field in &parsed.fields {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    emit_field_docs(&field.bit_range, ident.to_string(), &field.ty);
+                    emit_field_docs(&field.bit_range, ident.unraw().to_string(), &field.ty);
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     for (i, field) in elements.iter().enumerate() {
-                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident, i), &field.ty);
+                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident.unraw(), i), &field.ty);
                     }
                 }
             }            
diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 536910f..e2d1d2a 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -3,6 +3,7 @@ extern crate syn;
 
 use proc_macro2::Span;
 use quote::TokenStreamExt;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use crate::utils::*;
 use crate::common::collections_prefix;
@@ -24,21 +25,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let to_display_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #name::#n => (#d)
     }}).collect();
 
     let from_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
 
     let from_str_lower: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string().to_lowercase();
+        let d = n.unraw().to_string().to_lowercase();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
@@ -113,7 +114,7 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
         }
     }
 
-    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
+    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.unraw().to_string())).to_uppercase(), Span::call_site());
     
 
     let mut str_format = {
-- 
2.43.0


From 9b9b3aaec161ef8214b8d2855b46448db67fd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 11/16] fix: reject open-ended positions with more than one
 number instead of joining their digits

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index b2673ee..e957c76 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -201,12 +201,10 @@ impl PackFieldAttribute {
 pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionParsed, String> {
     let v = v.trim();
     if v.ends_with("..") {
-        let v = v.replace("..", "");
-        let n = parse_num(&v)?;
+        let n = parse_num(&v[..(v.len() - 2)])?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
     } else if v.ends_with(':') {
-        let v = v.replace(':', "");
-        let n = parse_num(&v)?;
+        let n = parse_num(&v[..(v.len() - 1)])?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
     } else if v.contains(':') || v.contains("..=") {
         // inclusive
-- 
2.43.0


From 909ae52fb5bf5e25240a03ba22b3b475c47584b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 12/16] fix: reject empty exclusive ranges of bit positions

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index e957c76..4299730 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -235,8 +235,8 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
         if s.len() == 2 {
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
-            if end == 0 {
-                panic!("Ending cannot be 0 for exclusive ranges.");
+            if end <= start {
+                return Err(format!("An exclusive range has to end after its start: '{}'", v));
             }
             
             if multiplier > 1 {
-- 
2.43.0


From 23c6b0c6d3f7dfae798935144b909fd6f7a66d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 13/16] fix: reject lsb0 positions above the size of the
 structure when the macro is built without overflow checks

---
 packed_struct_codegen/src/pack_parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index a17578d..d042785 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -416,6 +416,10 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
+                        if start >= struct_size_bytes * 8 || end >= struct_size_bytes * 8 {
+                            return Err(syn::Error::new(field.span(), "The position of this field exceeds the size of the structure."));
+                        }
+
                         BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
-- 
2.43.0


From b44cd6d79131169e65a5cba82a77669e62aad2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 14/16] fix: reject attribute numbers whose conversion to bits
 overflows

---
 packed_struct_codegen/src/pack_parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index d042785..4394d13 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -354,10 +354,16 @@ impl BitsPositionParsed {
 pub fn parse_num(s: &str) -> Result<usize, String> {
     let s = s.trim();
 
-    if s.starts_with("0x") || s.starts_with("0X") {
+    let n = if s.starts_with("0x") || s.starts_with("0X") {
         usize::from_str_radix(&s[2..], 16).map_err(|e| { format!("Invalid hex number: {:?}, parse error: {:?}", s, e) })
     } else {
         s.parse().map_err(|e| format!("Invalid decimal number: {:?}, parse error: {:?}", s, e))
+    };
+
+    match n {
+        // converting bytes to bits has to be possible
+        Ok(n) if n > usize::max_value() / 256 => Err(format!("Number too large: {:?}", s)),
+        n => n
     }
 }
 
-- 
2.43.0


From a16dccb2fbd74a30fabd3ff3eb4a2feb187dfff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 15/16] fix: keep every byte of unaligned fields wider than 255
 bits

The mask of each packed byte was computed from a width truncated to u8: after 256 bits it started again from an empty mask
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 0fb1cb5..9ded452 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -197,7 +197,7 @@ fn pack_bits(field: &FieldRegular, src: &syn::Ident) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(if l < 8 { l as u8 } else { 8 });                        
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From f31251c4cb692222d862d51aa23f8e4013509608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 16/16] fix: compute byte positions and sizes with integers

Single-precision arithmetic misplaced fields and cut the size of structures above 2^24 bits
---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 9ded452..65f83a5 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -175,8 +175,8 @@ fn pack_bits(field: &FieldRegular, src: &syn::Ident) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8; 
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 4394d13..12d87d3 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -459,7 +459,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = num_bits / 8 + if num_bits % 8 == 0 { 0 } else { 1 };
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0

