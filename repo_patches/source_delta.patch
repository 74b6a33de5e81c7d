From 8cbb3e4d1e3b621f51a12f1d5af74938cc14256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 01/21] fix: varchar strings with a truncated content are
 reported instead of panicking

---
 runtime/src/message/util/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..8e3075f 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let len = msg.into_inner().to_usize();
+        let subslice = slice[size..].get(..len).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From b3431173350fa8b6c34a995bad73371317831b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 02/21] fix: arrays with an item count overflowing the address
 space are reported as truncated

---
 runtime/src/message/util/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..d1788bc 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE).and_then(|v| v.checked_add(control_size)).ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From 058d8e9557e697d53adf4898edd6d72aa70fabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 03/21] fix: list iterators end after reporting an invalid item

---
 runtime/src/message/util/list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..e8e6ce0 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,10 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +99,10 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 1e3852d16ddbf72e82623c0a09e705fa4d0c465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 04/21] fix: strings and lists too long for their length prefix
 are rejected instead of written with a wrong length

---
 runtime/src/message/interface.rs      | 1 +
 runtime/src/message/util/list_base.rs | 3 +++
 runtime/src/message/util/string.rs    | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index cf7c115..64ea07e 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -33,6 +33,7 @@ simple_error! {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
+        LengthOverflow(usize) => "length does not fit in the length prefix ({})",
         (impl From) Io(std::io::Error) => "io error: {}"
     }
 }
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..d62ed3f 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,6 +51,9 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+                if T::Input::from_usize(input.len).to_usize() != input.len {
+                    return Err(Error::LengthOverflow(input.len));
+                }
                 T::write_to(&T::Input::from_usize(input.len), &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 8e3075f..c0db850 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -75,6 +75,9 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if T::Input::from_usize(input.len()).to_usize() != input.len() {
+            return Err(Error::LengthOverflow(input.len()));
+        }
         T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
-- 
2.43.0


From dbd098125ea88287787eb2c8a1fa630cd158ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 05/21] fix: bit codecs overflow on 64 bits wide fields

---
 runtime/src/codec/bits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..db3e5f8 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -71,13 +71,13 @@ pub struct BitCodecBE;
 
 impl BitCodec for BitCodecLE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let value = T::read_bytes_le(buffer);
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
         let original = T::read_bytes_le(buffer);
         let clean = original & T::from_usize(reset_mask);
@@ -88,13 +88,13 @@ impl BitCodec for BitCodecLE {
 
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let value = T::read_bytes_be(buffer);
         (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-- 
2.43.0


From 26417b4d766ebc209053deefe24e416bb34ed2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/21] fix: big endian bit codec addresses and clears the bits
 of the field instead of unrelated ones

---
 runtime/src/codec/bits.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index db3e5f8..7926188 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -90,15 +90,16 @@ impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
-        let reset_mask = !(mask << BIT_OFFSET);
+        let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
+        let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
 }
-- 
2.43.0


From aff4bb948064ab5b99913b4f634b20db040ada5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/21] fix: big endian byte codec keeps the least significant
 bytes of unaligned values

---
 runtime/src/codec/bytes.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..bee40af 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,25 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        data[start..start + buffer.len()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        data[start..start + buffer.len()].copy_from_slice(buffer);
+        Self::write_aligned::<T>(&mut data, value);
+        let len = buffer.len();
+        buffer.copy_from_slice(&data[start..start + len]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From c5ac3097445505dbad326b76c32420f96a5e5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 08/21] fix: honor the endianness declared by a protocol

---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From 4f30480cc236e59193760c0710d5beed296e0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 09/21] fix: structure fields which straddle bytes are
 addressed with all their bits

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 15 ++++++----
 compiler/src/gen/base/structure.rs |  4 +--
 runtime/src/codec/bits.rs          | 44 ++++++++++++++++++++++++++++++
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..12b9a5c 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStruct => "unaligned structure in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..b37de0f 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,14 +126,16 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
+        let end = bit_offset + bit_size;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
+            byte_size: if end % 8 != 0 {
+                (end / 8) + 1
             } else {
-                bit_size / 8
+                end / 8
             }
         }
     }
@@ -289,6 +291,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStruct);
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -303,7 +308,7 @@ impl Field {
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
+                    if bit_size % 8 != 0 || last_bit_offset % 8 != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..021a106 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_size % 8 != 0 || v.loc.bit_offset != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_size % 8 != 0 || v.loc.bit_offset != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index 7926188..f3285d9 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -33,7 +33,12 @@ use crate::util::ToUsize;
 pub trait BitCodec {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
 
+    unsafe fn read_straddling<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
+
     unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        if buffer.len() > size_of::<T>() {
+            return Self::read_straddling::<T, BIT_OFFSET, BIT_SIZE>(buffer);
+        }
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
         Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
@@ -49,7 +54,12 @@ pub trait BitCodec {
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
 
+    unsafe fn write_straddling<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
+
     unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        if buffer.len() > size_of::<T>() {
+            return Self::write_straddling::<T, BIT_OFFSET, BIT_SIZE>(buffer, value);
+        }
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
         Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
@@ -84,6 +94,23 @@ impl BitCodec for BitCodecLE {
         let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
         (clean | value).write_bytes_le(buffer);
     }
+
+    unsafe fn read_straddling<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        T::from_usize((u128::from_le_bytes(data) >> BIT_OFFSET) as usize & mask)
+    }
+
+    unsafe fn write_straddling<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        let clean = u128::from_le_bytes(data) & !((mask as u128) << BIT_OFFSET);
+        let value = ((value.to_usize() & mask) as u128) << BIT_OFFSET;
+        let len = buffer.len();
+        buffer.copy_from_slice(&(clean | value).to_le_bytes()[..len]);
+    }
 }
 
 impl BitCodec for BitCodecBE {
@@ -102,6 +129,23 @@ impl BitCodec for BitCodecBE {
         let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
+
+    unsafe fn read_straddling<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        T::from_usize((u128::from_be_bytes(data) >> (128 - BIT_SIZE - BIT_OFFSET)) as usize & mask)
+    }
+
+    unsafe fn write_straddling<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        let clean = u128::from_be_bytes(data) & !((mask as u128) << (128 - BIT_SIZE - BIT_OFFSET));
+        let value = ((value.to_usize() & mask) as u128) << (128 - BIT_SIZE - BIT_OFFSET);
+        let len = buffer.len();
+        buffer.copy_from_slice(&(clean | value).to_be_bytes()[..len]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 913c3975a219a70306354ea9132c4199c765b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 10/21] fix: structure fields with an impossible bit size or
 array length are rejected instead of panicking or being misread

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 12b9a5c..bf664d6 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -34,6 +34,7 @@ simple_error! {
         MultiPayload => "message has more than 1 payload",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
+        UnsupportedArrayLength(usize) => "unsupported array length ({})",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
         MissingBitSize => "missing bits specifier on a structure field",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index b37de0f..0d2dd38 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -303,12 +303,22 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                if bit_size == 0 || bit_size > 64 {
+                    return Err(Error::UnsupportedBitSize(bit_size));
+                }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                if array_len == 0 {
+                    return Err(Error::UnsupportedArrayLength(array_len));
+                }
+                if array_len > 1 && bit_size % 8 != 0 {
+                    return Err(Error::UnalignedArrayCodec);
+                }
+                bit_size = bit_size.checked_mul(array_len).filter(|v| v.checked_add(last_bit_offset).is_some())
+                    .ok_or(Error::UnsupportedArrayLength(array_len))?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 || last_bit_offset % 8 != 0 {
+                    if last_bit_offset % 8 != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
-- 
2.43.0


From f3d6ec6376e2f646417d4e78768a01878b962c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 11/21] fix: float-range views span from min to max and are
 inverted correctly by the setter

---
 compiler/src/compiler/structure.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 0d2dd38..bade3c8 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -191,11 +191,11 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let raw_max: usize = usize::MAX >> (usize::BITS as usize - bit_size);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 2838d781a5dc7633f39d2ab9d64e3047891fc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 12/21] fix: enum views only return declared variants instead
 of transmuting any value up to the largest

---
 compiler/src/gen/base/structure.rs             | 5 +++++
 compiler/src/gen/rust/structure.field.template | 8 +++-----
 compiler/src/gen/rust/util.rs                  | 4 ++++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 021a106..7474c71 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -39,6 +39,9 @@ pub trait Utilities {
     fn get_bit_codec_inline(endianness: Endianness) -> &'static str;
     fn get_byte_codec_inline(endianness: Endianness) -> &'static str;
     fn get_byte_codec(endianness: Endianness) -> &'static str;
+    fn gen_enum_case(_type_name: &str, _variant: &str, _value: usize) -> String {
+        String::new()
+    }
 }
 
 fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -112,6 +115,8 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
         FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
+            .var("enum_cases", e.variants.iter()
+                .map(|(k, v)| U::gen_enum_case(type_path_by_name.get(&e.name), k, *v)).join(""))
             .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..fffa9fb 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,9 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{enum_cases}
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..7d22b65 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -133,6 +133,10 @@ impl crate::gen::base::structure::Utilities for RustUtils {
             Endianness::Big => "bp3d_proto::codec::ByteCodecBE"
         }
     }
+
+    fn gen_enum_case(type_name: &str, variant: &str, value: usize) -> String {
+        format!("            {} => Some({}::{}),\n", value, type_name, variant)
+    }
 }
 
 impl crate::gen::base::message::Utilities for RustUtils {
-- 
2.43.0


From 252ee35896ef2c8201ed8ff983187f45c2815dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 13/21] fix: union cases without content also check the
 discriminant when written

---
 compiler/src/gen/rust/union.rs       | 12 +++++++-----
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..02cd263 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -83,18 +83,20 @@ fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &T
     let generics = get_generics(u);
     let mut scope = template.scope();
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
+        let cases = u.cases.iter().map(|case| {
             let mut scope = template.scope();
             scope.var("name", &case.name).var_d("case", case.case);
             match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
+                None => scope.render("write_to.generics", &["case_none"]).unwrap(),
+                Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                    .render("write_to.generics", &["case"]).unwrap()
             }
         }).join("");
         scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
-        scope.render_to_var("write_to", &["none"], "fragment").unwrap();
+        let cases = u.cases.iter().map(|case| template.scope().var("name", &case.name).var_d("case", case.case)
+            .render("write_to.none", &["case"]).unwrap()).join("");
+        scope.var("cases", cases).render_to_var("write_to", &["none"], "fragment").unwrap();
     }
     scope.render("", &["write_to"]).unwrap()
 }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..6871bf8 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 58bd39e57cac98c8c1e7b0e06124f89f54add9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 14/21] fix: union cases are stored as raw discriminant values
 and rejected when not representable

---
 compiler/src/compiler/union.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..b63dcf6 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -29,7 +29,7 @@
 use std::rc::Rc;
 use crate::compiler::message::{Referenced, SizeInfo};
 use crate::compiler::{Error, Protocol};
-use crate::compiler::structure::{Field, FieldView, FixedField, Structure};
+use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
 
 #[derive(Clone, Debug)]
 pub struct UnionField {
@@ -40,15 +40,27 @@ pub struct UnionField {
 
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
+        if discriminant.ty == FixedFieldType::Float32 || discriminant.ty == FixedFieldType::Float64 {
+            return Err(Error::FloatInUnionDiscriminant);
+        }
+        let unused_bits = usize::BITS as usize - discriminant.loc.bit_size;
+        let max_value = usize::MAX >> unused_bits;
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
-            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
-            FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case.clone()))?,
+            FieldView::Transmute | FieldView::SignedCast { .. } if discriminant.ty != FixedFieldType::Bool => {
+                let case: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
+                let raw = case as usize & max_value;
+                if ((raw << unused_bits) as isize) >> unused_bits != case {
+                    return Err(Error::InvalidUnionCase(value.case));
+                }
+                raw
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            _ => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?
         };
+        if case > max_value {
+            return Err(Error::InvalidUnionCase(value.case));
+        }
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
         Ok(UnionField {
-- 
2.43.0


From 36371369165157f15ae7c424f068114f5e41201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 15/21] fix: union discriminant paths which do not end on a
 fixed field are rejected instead of panicking

---
 compiler/src/compiler/union.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b63dcf6..2fb6e40 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -120,17 +120,24 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut is_leaf = false;
         for sub in parts {
+            if is_leaf {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => is_leaf = true,
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
         }
+        if !is_leaf {
+            return Err(Error::InvalidUnionDiscriminant);
+        }
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-- 
2.43.0


From 0b319d099e7e54a08e5363679e62a43e012fc49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 16/21] fix: single field structures are only inlined in
 messages with the size and endianness of the structure

---
 compiler/src/compiler/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..897f057 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
@@ -145,7 +145,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From 07d9202533173775cb14672f28068a4cd583762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 17/21] fix: template capitalize function does not panic on
 names starting with a multi-byte character

---
 compiler/src/gen/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..b8a3c04 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -135,7 +135,7 @@ fn capitalize(value: &str) -> Cow<str> {
     if value.len() == 0 {
         return value.into();
     }
-    if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
+    if !value.is_char_boundary(1) || (value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z') {
         value.into()
     } else {
         (value[..1].to_ascii_uppercase() + &value[1..]).into()
-- 
2.43.0


From 7f328a440f0844343cd856ac9dcc4b1061d82266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 18/21] fix: lists only extend to the end of the input when
 nothing can follow them

---
 compiler/src/compiler/message.rs            | 7 ++++++-
 compiler/src/compiler/union.rs              | 3 +++
 compiler/src/gen/base/message_from_slice.rs | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 897f057..6d01563 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -161,6 +161,7 @@ impl Field {
                         }
                     },
                     Referenced::Message(r) => {
+                        r.set_embedded();
                         Ok(Field {
                             name: value.name,
                             optional: value.optional.unwrap_or_default(),
@@ -191,7 +192,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -300,6 +301,10 @@ impl Message {
         self.embedded.get()
     }
 
+    pub fn set_embedded(&self) {
+        self.embedded.set(true);
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 2fb6e40..026725d 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -63,6 +63,9 @@ impl UnionField {
         }
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
+        if let Some(Referenced::Message(v)) = &item_type {
+            v.set_embedded();
+        }
         Ok(UnionField {
             name: value.name,
             case,
diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..b23d9b8 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -61,7 +61,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             gen_optional::<U>(field.optional, type_path_by_name.get(&v.r.name))
         },
         FieldType::List(v) => {
-            match msg.is_embedded() {
+            match msg.is_embedded() || msg.fields.last().map(|v| v.name != field.name).unwrap_or_default() {
                 false => gen_optional::<U>(field.optional, template.scope()
                     .var("codec", U::get_value_type(field.endianness, v.ty))
                     .var("type_name", type_path_by_name.get(&v.item_type.name))
-- 
2.43.0


From 5208fae0660e8e6fae2cd2fae0c9f16cd7150baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 19/21] fix: payloads followed by another field or repeated by
 a list are rejected instead of being impossible to decode

---
 compiler/src/compiler/message.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 6d01563..760504d 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -107,6 +107,19 @@ impl FieldType {
             _ => false
         }
     }
+
+    /// Returns true if this field extends to the end of its input.
+    fn has_payload(&self) -> bool {
+        match self {
+            FieldType::Payload => true,
+            FieldType::Ref(Referenced::Message(v)) => v.has_payload(),
+            FieldType::Union(v) => v.r.cases.iter().any(|v| match &v.item_type {
+                Some(Referenced::Message(v)) => v.has_payload(),
+                _ => false
+            }),
+            _ => false
+        }
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
@@ -192,6 +205,9 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
+                        if item_type.has_payload() {
+                            return Err(Error::MultiPayload);
+                        }
                         item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
@@ -297,6 +313,10 @@ pub struct Message {
 }
 
 impl Message {
+    fn has_payload(&self) -> bool {
+        self.fields.iter().any(|v| v.ty.has_payload())
+    }
+
     pub fn is_embedded(&self) -> bool {
         self.embedded.get()
     }
@@ -311,6 +331,9 @@ impl Message {
         let mut is_dyn_sized = false;
         for v in value.fields {
             let field = Field::from_model(proto, &fields, v)?;
+            if fields.last().map(|v: &Field| v.ty.has_payload()).unwrap_or_default() {
+                return Err(Error::VarsizeAfterPayload)
+            }
             if field.size.is_dyn_sized {
                 is_dyn_sized = true;
             }
-- 
2.43.0


From 4f045fa08d1e16cf2f2fbd39703bb078419cac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:52 +0000
Subject: [PATCH 20/21] hook: entry points for verification under cfg(kani)

---
 compiler/src/compiler/message.rs   | 18 ++++++++++++++++++
 compiler/src/compiler/structure.rs | 14 ++++++++++++++
 compiler/src/lib.rs                |  3 +++
 3 files changed, 35 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 760504d..f4b64f5 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -359,3 +359,21 @@ impl Message {
         })
     }
 }
+
+/// Entry points for the verification of this module.
+#[cfg(kani)]
+pub mod verif {
+    use super::*;
+
+    pub fn field(proto: &Protocol, unsorted: &[Field], value: crate::model::message::MessageField) -> Result<Field, Error> {
+        Field::from_model(proto, unsorted, value)
+    }
+
+    pub fn message(name: String, fields: Vec<Field>, size: SizeInfo) -> Message {
+        Message { name, fields, size, embedded: Cell::new(false) }
+    }
+
+    pub fn has_payload(ty: &FieldType) -> bool {
+        ty.has_payload()
+    }
+}
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index bade3c8..91898f9 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -372,3 +372,17 @@ impl Structure {
         })
     }
 }
+
+/// Entry points for the verification of this module.
+#[cfg(kani)]
+pub mod verif {
+    use super::*;
+
+    pub fn location(bit_size: usize, bit_offset: usize) -> Location {
+        Location::from_model(bit_size, bit_offset)
+    }
+
+    pub fn field(proto: &Protocol, last_bit_offset: usize, value: crate::model::structure::StructField) -> Result<(Field, usize), Error> {
+        Field::from_model(proto, last_bit_offset, value)
+    }
+}
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 108c209..1cee4fa 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -26,7 +26,10 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#[cfg(not(kani))]
 mod model;
+#[cfg(kani)]
+pub mod model;
 pub mod compiler;
 pub mod gen;
 mod error;
-- 
2.43.0


From b0c6ba2c7f8663ca2a828334bc3b7767b4cee162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 21/21] fix: report nested structures which do not fit the
 address space instead of overflowing

---
 compiler/src/compiler/structure.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 91898f9..20f5dc7 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -294,11 +294,12 @@ impl Field {
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
+                let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::UnsupportedBitSize(r.bit_size))?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), next_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
-- 
2.43.0

