From 6289516c7d0e957f18c1709617a23f8bd4bc1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 01/12] fix: keep unpacked field locals apart from each other
 and from the generated code's names

A field named 'src' replaced the source bytes of every later field, and a field
named 'x_0' next to an array field 'x' replaced that array's first element.
---
 packed_struct_codegen/src/pack_codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..476a1e1 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -51,20 +51,23 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
-        for field in &parsed.fields {
+        // the local variables that hold the unpacked values are named by position, so that
+        // they can't clash with each other or with the names used by the generated code
+        for (field_index, field) in parsed.fields.iter().enumerate() {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target: syn::Ident = syn::parse_str(&format!("__unpacked_{}", field_index))?;
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target: syn::Ident = syn::parse_str(&format!("__unpacked_{}_{}", field_index, i))?;
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From 901ec3afe86f91f15871345d2c214e50f9549463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 02/12] fix: inclusive byte ranges written high to low cover
 both end bytes

bytes="3:0" was parsed as bits 7..24 instead of 0..31.
---
 packed_struct_codegen/src/pack_parse_attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..15b9ecc 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -205,7 +205,9 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
-                return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
+                // either end can come first, the range always covers both of them entirely
+                let (first, last) = (std::cmp::min(start, end), std::cmp::max(start, end));
+                return Ok(BitsPositionParsed::Range(first * multiplier, ((last+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
             }
-- 
2.43.0


From 1e55fcf2af4a83342265b6562c10c3da08813581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 03/12] fix: reject array ranges that don't divide evenly into
 the array's elements

A 7 bit range for [bool; 4] was accepted and left with 1 bit elements in its
first 4 bits only, since the remainder was taken by the element's size.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..15c17d9 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if (mp.bit_width % size) != 0 || element_size_bits == 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From e083167a8b4598c2f36ba024f61b9ef26fd74eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 04/12] fix: detect an implicit enum backing type that holds
 every discriminant

Discriminants below i32::MIN were given an i32, and a negative discriminant next
to a positive one above the signed type's maximum got a too narrow type; neither compiled.
---
 packed_struct_codegen/src/primitive_enum.rs | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..9cbcb3e 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,23 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        // a single negative variant requires a signed type that fits all the other variants as well
+        let signed = v.iter().any(|d| d.negative || d.suffix.starts_with('i'));
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
+            } else if signed {
+                // the absolute value of the minimum is one larger than the maximum
+                let n = if d.negative { d.discriminant - 1 } else { d.discriminant };
+                if n > <i32>::max_value() as u64 {
                     "i64".into()
+                } else if n > <i16>::max_value() as u64 {
+                    "i32".into()
+                } else if n > <i8>::max_value() as u64 {
+                    "i16".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i8".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From 5ecfe269bd52e2991373fc2ee32f35a4695a69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 05/12] fix: treat a negated zero discriminant as zero

An implicit variant following '-0' made the derive macro overflow and panic.
---
 packed_struct_codegen/src/primitive_enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 9cbcb3e..a6e05e4 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -253,7 +253,8 @@ fn get_unitary_enum(input: &syn::DeriveInput) -> syn::Result<Vec<Variant>> {
 
                 match **expr {
                     syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(ref lit_int), .. }) => {
-                        (lit_int.base10_parse()?, true, lit_int.suffix().into())
+                        let d: u64 = lit_int.base10_parse()?;
+                        (d, d != 0, lit_int.suffix().into())
                     },
                     _ => return Err(syn::Error::new(expr.span(), "Unsupported enum const expr (negated)"))
                 }
-- 
2.43.0


From 70fd82a8bdb30461b3f76efd06247a613977f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 06/12] fix: reject malformed values of known attributes
 instead of ignoring them

For instance bits="0:x" was skipped and the field silently placed automatically.
---
 packed_struct_codegen/src/pack_parse.rs       |  9 ++++--
 .../src/pack_parse_attributes.rs              | 28 +++++++++++++------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 15c17d9..3c33211 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -166,7 +166,8 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
         _ => { return Err(syn::Error::new(field.ty.span(), "Unsupported type")); }
     };
 
-    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?);
+    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?)
+        .map_err(|e| syn::Error::new(field.span(), e))?;
 
     let bits_position = field_attributes.iter().filter_map(|a| match a {
         &PackFieldAttribute::BitPosition(b) | &PackFieldAttribute::BytePosition(b) => Some(b),
@@ -242,7 +243,8 @@ fn parse_reg_field(field: &syn::Field, ty: &syn::Type, bit_range: &Range<usize>,
     let bit_width = (bit_range.end - bit_range.start) + 1;
     
     let ty_str = tokens_to_string(ty);
-    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?);
+    let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, "packed_field", "packed_struct")?)
+        .map_err(|e| syn::Error::new(field.span(), e))?;
 
 
     let is_enum_ty = field_attributes.iter().filter_map(|a| match *a {
@@ -352,7 +354,8 @@ pub fn parse_num(s: &str) -> Result<usize, String> {
 
 
 pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
-    let attributes = PackStructAttribute::parse_all(&parse_sub_attributes(&ast.attrs, "packed_struct", "packed_field")?);
+    let attributes = PackStructAttribute::parse_all(&parse_sub_attributes(&ast.attrs, "packed_struct", "packed_field")?)
+        .map_err(|e| syn::Error::new(ast.span(), e))?;
 
     let data_struct = match &ast.data {
         syn::Data::Struct(data) => data,
diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 15b9ecc..8d5f8d5 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -55,14 +55,20 @@ impl PackStructAttribute {
         Err(format!("Unknown struct attribute: {}, value {}", name, val))
     }
 
-    pub fn parse_all(attributes: &[(String, String)]) -> Vec<Self> {
+    pub fn parse_all(attributes: &[(String, String)]) -> Result<Vec<Self>, String> {
+        use self::PackStructAttributeKind::*;
+
+        let known = [SizeBytes, DefaultIntEndianness, BitNumbering];
         let mut r = vec![];
         for (name, val) in attributes {
-            if let Ok(attr) = Self::parse(name, val) {
-                r.push(attr)
+            match Self::parse(name, val) {
+                Ok(attr) => r.push(attr),
+                // a malformed value of an attribute that we do know must not be skipped silently
+                Err(e) if known.iter().any(|k| k.get_attr_name() == name) => return Err(e),
+                Err(_) => ()
             }
         }
-        r
+        Ok(r)
     }    
 }
 
@@ -151,14 +157,20 @@ impl PackFieldAttribute {
         Err(format!("Unsupported field attribute: {}, value {}", name, val))
     }
 
-    pub fn parse_all(attributes: &[(String, String)]) -> Vec<Self> {
+    pub fn parse_all(attributes: &[(String, String)]) -> Result<Vec<Self>, String> {
+        use self::PackFieldAttributeKind::*;
+
+        let known = [IntEndiannes, BitPosition, BytePosition, ElementSizeBytes, ElementSizeBits, SizeBytes, SizeBits, Ty];
         let mut r = vec![];
         for (name, val) in attributes {
-            if let Ok(attr) = Self::parse(name, val) {
-                r.push(attr)
+            match Self::parse(name, val) {
+                Ok(attr) => r.push(attr),
+                // a malformed value of an attribute that we do know must not be skipped silently
+                Err(e) if known.iter().any(|k| k.get_attr_name() == name) => return Err(e),
+                Err(_) => ()
             }
         }
-        r
+        Ok(r)
     }
 }
 
-- 
2.43.0


From 5e5271e3597a4c2a62487d16fbb7057bfd91eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 07/12] fix: reject LSB0 fields beyond the structure's size
 also without overflow checks

---
 packed_struct_codegen/src/pack_parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 3c33211..97074d1 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -407,7 +407,9 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
-                        BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
+                        let to_msb0 = |bit: usize| (struct_size_bytes * 8).checked_sub(1).and_then(|last| last.checked_sub(bit))
+                            .ok_or_else(|| syn::Error::new(field.span(), "This field exceeds the size of the structure."));
+                        BitsPositionParsed::range_in_order( to_msb0(start)?, to_msb0(end)? )
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
                     }
-- 
2.43.0


From 0cff1c0ea9c1370a2621b573349a4fa281cad58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 08/12] fix: byte positions of fields beyond 2^24 bits were
 rounded

---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 476a1e1..e75d8d5 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -174,8 +174,8 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8; 
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 97074d1..9d0b90c 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -442,7 +442,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = (num_bits + 7) / 8;
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0


From a518b5a4536a842e62f25fd812cb99f689b2e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 09/12] fix: the alloc configuration builds again

---
 packed_struct/src/internal_prelude/no_std.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..3c71246 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -6,11 +6,12 @@ pub use core::fmt;
 pub use core::fmt::{Debug, Display};
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
+pub use core::fmt::Formatter;
 pub use core::ops::Range;
 pub use core::num::Wrapping;
 pub use core::cmp::*;
 pub use core::mem;
-pub use core::intrinsics::write_bytes;
+pub use core::ptr::write_bytes;
 pub use core::ops::Deref;
 pub use core::slice;
 pub use core::hash::{Hash, Hasher};
-- 
2.43.0


From 84976704fa0a102787f9645c7c7e8ec3ef94c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 10/12] fix: unaligned fields of 32 bytes and more lost bits of
 their 32nd byte

---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index e75d8d5..f33ad3d 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -196,7 +196,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(std::cmp::min(l, 8) as u8);                        
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From 12b502da7a5db33b114f14049933227eb33dd69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 11/12] fix: read the width of a type from its literal, not
 from the first digits of its argument

Bits<0x7> panicked the derive, and Bits<{4 + 4}> or Bits<W4> silently gave an
automatically placed field 4 bits.
---
 packed_struct_codegen/src/pack_parse.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 9d0b90c..182a637 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -103,17 +103,10 @@ fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>
                             let ty_str = tokens_to_string(ty);                            
                             let p = " Bits ";
                             if let Some(bits_pos) = ty_str.find(p) {
-                                let ty_start = &ty_str[(bits_pos+p.len())..];                                
-                                let start = ty_start.find(|p: char| p.is_numeric());
-                                if let Some(start) = start {
-                                    let num_start = &ty_start[start..];                                    
-                                    let end = num_start.find(|p: char| !p.is_numeric());
-                                    if let Some(end) = end {
-                                        let num = &num_start[..end];
-                                        if let Ok(bits) = num.parse::<usize>() {
-                                            return Ok(Some(bits));
-                                        }
-                                    }
+                                // the argument has to be a literal: a constant or an expression isn't known here
+                                let arg = ty_str[(bits_pos+p.len())..].trim_matches(|c: char| c.is_whitespace() || ":<>{},".contains(c));
+                                if let Ok(bits) = syn::parse_str::<syn::LitInt>(arg).and_then(|n| n.base10_parse::<usize>()) {
+                                    return Ok(Some(bits));
                                 }
                             }
                         }
-- 
2.43.0


From b93117726359545384a2fd236b3f94f592053230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 12/12] fix: generated code called inherent methods of the
 user's types instead of the packing traits

---
 packed_struct_codegen/src/pack_codegen.rs      | 12 ++++++------
 packed_struct_codegen/src/pack_codegen_docs.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index f33ad3d..3ac4f86 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -269,7 +269,7 @@ fn pack_field(name: &dyn quote::ToTokens, field: &FieldRegular) -> proc_macro2::
                     {
                         use ::packed_struct::PrimitiveEnum;
 
-                        let primitive_integer = { #output }.to_primitive();
+                        let primitive_integer = PrimitiveEnum::to_primitive(&{ #output });
                         primitive_integer
                     }
                 };
@@ -301,7 +301,7 @@ fn pack_field(name: &dyn quote::ToTokens, field: &FieldRegular) -> proc_macro2::
 
     quote! {
         {
-            { & #output }.pack()?
+            ::packed_struct::PackedStruct::pack({ & #output })?
         }
     }
 }
@@ -321,7 +321,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::types::*;
                     use ::packed_struct::types::bits::*;
 
-                    let res: #result_ty <#endian <_, _, #integer >, PackingError> = <#endian <_, _, _>>::unpack(& #unpack );
+                    let res: #result_ty <#endian <_, _, #integer >, PackingError> = <#endian <_, _, _> as PackedStruct>::unpack(& #unpack );
                     let unpacked = res?;
                     **unpacked
                 };
@@ -335,7 +335,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::PrimitiveEnum;
 
                     let primitive_integer: <#ty as PrimitiveEnum>::Primitive = { #unpack };
-                    let r = <#ty>::from_primitive(primitive_integer).ok_or(PackingError::InvalidValue);
+                    let r = <#ty as PrimitiveEnum>::from_primitive(primitive_integer).ok_or(PackingError::InvalidValue);
                     r?
                 };
             },
@@ -346,7 +346,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::types::*;
                     use ::packed_struct::types::bits::*;
 
-                    let res: #result_ty <#endian <_, _, #integer_ty >, PackingError> = <#endian <_, _, #integer_ty >>::unpack(& #unpack );
+                    let res: #result_ty <#endian <_, _, #integer_ty >, PackingError> = <#endian <_, _, #integer_ty > as PackedStruct>::unpack(& #unpack );
                     let unpacked = res?;
                     *unpacked
                 };
@@ -354,7 +354,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
             (None, None) => {
                 let ty = &field.ty;
                 unpack = quote! {
-                    <#ty>::unpack(& #unpack)?
+                    <#ty as ::packed_struct::PackedStruct>::unpack(& #unpack)?
                 };
             },
             (_, _) => {
diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..5c9625b 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -67,7 +67,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                 use ::packed_struct::PackedStruct;
                 
                 let fields = #debug_fields_fn(self);
-                let packed: [u8; #num_bytes] = self.pack()?;
+                let packed: [u8; #num_bytes] = ::packed_struct::PackedStruct::pack(self)?;
                 ::packed_struct::debug_fmt::packable_fmt_fields(fmt, &packed, &fields)
             }
 
-- 
2.43.0

