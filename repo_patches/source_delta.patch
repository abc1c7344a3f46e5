From 8b5edb5e4647438b2818d64f52577efb2e617eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 01/17] fix: standard tagged reads leave an element with
 another tag unconsumed

A RationalNumber with a negative bignum numerator never decoded, because
trying the positive bignum first consumed the tag.
---
 src/reader.rs | 13 +++++++++++++
 src/tagged.rs |  9 +--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..7b80497 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -512,6 +512,19 @@ impl<'a> Reader<'a> {
         Ok(Tag { tag_val, data })
     }
 
+    /// Try to parse a Tag with a specific tag value from the Reader
+    ///
+    /// Otherwise return an error if the element is not a tag, or a tag with another value,
+    /// in which case nothing is consumed
+    pub(crate) fn tag_expected(&mut self, expected: u64) -> Result<Tag<'a>, ReaderError> {
+        let (hdr, _) = self.header()?;
+        let got = matches_type!(hdr, Type::Tag, Header::Tag)?.to_u64();
+        if got != expected {
+            return Err(ReaderError::WrongExpectedTag { expected, got });
+        }
+        self.tag()
+    }
+
     pub fn data(&mut self) -> Result<Data<'a>, ReaderError> {
         let ty = self.peek_type()?;
         match ty {
diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..f61a231 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -43,14 +43,7 @@ pub enum RationalDenominator {
 
 macro_rules! matches_tag {
     ($reader:ident, $value:literal) => {{
-        let tag = $reader.tag()?;
-        if tag.value() != $value {
-            return Err(ReaderError::WrongExpectedTag {
-                expected: $value,
-                got: tag.value(),
-            });
-        }
-        tag
+        $reader.tag_expected($value)?
     }};
 }
 
-- 
2.43.0


From addeadb584dab7d306eb320b4c992b0178460663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 02/17] fix: no arithmetic overflow on huge declared string
 lengths

---
 src/context.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..9eec42f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,7 +63,8 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
-            Ok(&self.data[start..end])
+            let start = self.index + offset;
+            Ok(&self.data[start..start + n])
         }
     }
 
-- 
2.43.0


From 8e899069b705a2913c4268c375e4b723c7a2e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 03/17] fix: reading or validating an empty buffer reports
 missing data instead of panicking

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7b80497..dc4bd7e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From 12ba7c33399364d68729a4cef0cb4d819dc2fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 04/17] fix: null() and undefined() only accept their own
 constant

---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index dc4bd7e..c84b911 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -288,14 +288,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From 51eb69e1b1d8f21d8db45b62dff0439e8f7e5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 05/17] fix: refuse chunks of another type in indefinite
 strings and odd indefinite maps

---
 src/state.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..bc956bb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { .. } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -212,6 +216,17 @@ impl State {
         v: HeaderValueStream,
         new_stream: StreamType,
     ) -> Result<(), StateError> {
+        match self.ctx.last() {
+            // a chunk of a bytes/texts stream is a definite item of the same type
+            Some(StructTy::Stream(s)) if s.composite_scalar() => match (s, new_stream, v) {
+                (_, _, None) => return Err(StateError::ChunksInChunks),
+                (StreamType::Bytes, StreamType::Bytes, Some(_)) => (),
+                (StreamType::Text, StreamType::Text, Some(_)) => (),
+                (_, _, Some(_)) => return Err(StateError::InvalidTypeInChunk),
+            },
+            _ => (),
+        };
+
         match v {
             // beginning of a indefinite Text or indefinite Bytes
             None => {
@@ -261,6 +276,13 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
+
         self.advance()?;
         self.check_reduce()
     }
@@ -288,7 +310,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -297,6 +319,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a key without its value
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From e708d0a66191fe3e34b421e2ec72fa35c3e387ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 06/17] fix: a validator that reported an error starts the next
 element afresh

---
 src/validate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a637bed..55f8819 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -160,6 +160,8 @@ impl<'a> Validator<'a> {
     /// On error, it returns a `ValidateError` containing
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
+        // a previous failure leaves structures open
+        self.state = State::new();
 
         loop {
             let (ld, advance, ival) = self.header_parts()?;
-- 
2.43.0


From 7176b1ff43315b6784e6474d4a4c0939cf45732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 07/17] fix: CborData::validate_as refuses trailing bytes like
 CborSlice::validate_as

---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From a323701ec484cb1eead4f9808aeee92fd08606f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 08/17] fix: Byte::canonical of 20 to 23 is writable

---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..bae284c 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 20 to 23 are the constants (false, true, null and undefined)
+            _ if v < 20 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 20, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 20,
         }
     }
 }
-- 
2.43.0


From c46f5923c0d57b7f8b4a0aaaccde0c05039d77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 09/17] fix: derived mapint decoding honours map_starts_at like
 encoding does

---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From 14bb5f18db5c970d1c464fda00b428599d2f2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 10/17] fix: derived mapint decoding no longer overflows a
 shift on large keys

---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 633f17920af946eeb9cf6ad56c237c0470708886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 11/17] fix: derived flat decoding reads the tag that encoding
 writes

---
 cbored-derive/src/product.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..4c33fc4 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
-- 
2.43.0


From 90444e2140ebb178d2fceb0f6bf5450b37df259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 12/17] fix: derived enumtype with a null variant compiles and
 round-trips

---
 cbored-derive/src/sum.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..8204685 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -141,7 +141,7 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 { #field_name }
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     Some(StructOutput::Unnamed(field_names)) => {
@@ -153,12 +153,12 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 ( #field_name )
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From b1847ee52b831cd7c3d5f8686bd567ee9da90b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 13/17] fix: a malformed positive bignum numerator is not
 reported as missing data

---
 src/tagged.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tagged.rs b/src/tagged.rs
index f61a231..806f4c8 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -157,12 +157,14 @@ impl RationalNumber {
                 let res = match inner_reader.peek_type()? {
                     Type::Positive => inner_reader.positive().map(RationalNumerator::Positive),
                     Type::Negative => inner_reader.negative().map(RationalNumerator::Negative),
-                    Type::Tag => PositiveBignum::read(&mut inner_reader)
-                        .map(RationalNumerator::PositiveBignum)
-                        .or_else(|_| {
+                    Type::Tag => match PositiveBignum::read(&mut inner_reader) {
+                        // nothing has been consumed, so it can be the other kind of bignum
+                        Err(ReaderError::WrongExpectedTag { .. }) => {
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
-                        }),
+                        }
+                        res => res.map(RationalNumerator::PositiveBignum),
+                    },
                     ty => Err(ReaderError::WrongExpectedTypes {
                         expected: &[Type::Positive, Type::Negative, Type::Tag],
                         got: ty,
-- 
2.43.0


From d4c15693c0cf1aad2a00561703b1fd5fa0ab0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 14/17] fix: reserved special lead bytes are reported in full

---
 src/lowlevel/lead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lowlevel/lead.rs b/src/lowlevel/lead.rs
index 26e00a8..26269af 100644
--- a/src/lowlevel/lead.rs
+++ b/src/lowlevel/lead.rs
@@ -222,7 +222,7 @@ impl Lead {
             0x19 => Ok(Lead::FP16),
             0x1a => Ok(Lead::FP32),
             0x1b => Ok(Lead::FP64),
-            0x1c..=0x1e => Err(LeadError::Reserved(b)),
+            0x1c..=0x1e => Err(LeadError::Reserved(byte)),
             0x1f => Ok(Lead::Break),
             _ => unreachable!(),
         }
-- 
2.43.0


From e9c2acba565db562bb8d6906df98ddc7889c9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 15/17] fix: derived tuple and flat structures name themselves
 in decode errors

---
 cbored-derive/src/product.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 4c33fc4..03f1898 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -608,7 +608,7 @@ pub(crate) fn derive_struct_de(
                         } = &field;
                         let field_name_str = format!("{}", field_name);
                         let de_body = quote! {
-                            let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                            let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                         };
                         de_bodies.push(de_body);
                     }
@@ -635,13 +635,13 @@ pub(crate) fn derive_struct_de(
                 let field_name_str = format!("{}", field_name);
                 let de_body = match structure {
                     DeStructure::Array { last_optional: _ } => quote! {
-                        let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str))?;
+                        let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                     },
                     DeStructure::MapInt => {
                         todo!()
                     }
                     DeStructure::Flat => quote! {
-                        let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                        let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                     },
                 };
                 de_bodies.push(de_body);
-- 
2.43.0


From 1f3c265e285bfa3dc4c82f15456d12c61cfaf562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 16/17] fix: a refused variant number is reported with the enum
 it belongs to

---
 cbored-derive/src/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 8204685..bf3ced7 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -487,7 +487,7 @@ pub(crate) fn derive_enum_de(
 
     let body = match attrs.enumtype {
         EnumType::EnumInt => quote! {
-            let variant: u64 = reader.decode()?;
+            let variant: u64 = reader.decode().map_err(|e| e.push::<Self>())?;
             let variant: usize = variant as usize;
             match variant {
                 #( #field_matches )*
@@ -516,7 +516,7 @@ pub(crate) fn derive_enum_de(
                     }
                     _ => {}
                 };
-                let variant: u64 = array[0].decode()?;
+                let variant: u64 = array[0].decode().map_err(|e| e.push::<Self>())?;
                 let variant: usize = variant as usize;
                 match variant {
                     #( #field_matches )*
-- 
2.43.0


From a86399f3de562397f20998a7c9c4d07487ee3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 17/17] fix: elements of a derived vec field are located in
 decode errors

---
 cbored-derive/src/sum.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index bf3ced7..8644533 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -441,19 +441,15 @@ pub(crate) fn derive_enum_de(
                                 .map(|field| {
                                     let fidx = field.index;
                                     let ident = &field.name;
+                                    let fname_str = format!("{}", ident);
                                     if field.is_vec || field.attrs.variant_type == FieldVariantType::Vec {
                                         quote! {
                                             let #ident = {
                                                 let mut r = array[#fidx + 1].reader();
-                                                let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
-                                                    .iter()
-                                                    .map(|mut r| r.decode())
-                                                    .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
-                                                vec
+                                                ::cbored::decode_vec(&mut r).map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?
                                             };
                                         }
                                     } else {
-                                        let fname_str = format!("{}", ident);
                                         quote! {
                                             let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                         }
-- 
2.43.0

