From a2fd058346e811a92ce97de78df89b2cef0a4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 01/29] fix: encode signed integers outside the short range

The range check for shorts was always true, so every i16, i32, i64 and isize
was truncated to 12 bits or recursed for ever, and the byte count came from
the trailing instead of the leading bits.
---
 src/encoder/encodable.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..022215f 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if (-2048..=2047).contains(self) {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,20 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if (-2048..=2047).contains(self) {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // The bits which differ from the sign bit, plus one bit for the sign, plus the header byte.
+        let significant_bits = if *self >= 0 {
+            64 - self.leading_zeros()
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            64 - self.leading_ones()
+        };
+        significant_bits as usize / 8 + 1 + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if (-2048..=2047).contains(self) {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From aa9826a22c1385dfacc14afc1aad84210bf2e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 02/29] fix: count the leading zeros to size an unsigned
 integer

u64 (and u32, usize) dropped as many high bytes as there were low zero bytes.
---
 src/encoder/encodable.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 022215f..bfce0af 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -90,8 +90,7 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            8 - self.leading_zeros() as usize / 8 + 1
         }
     }
 
-- 
2.43.0


From ae13e41848aa4418ca014a9387e5aedf8db22147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 03/29] fix: give 16-bit integers outside the short range their
 real size

They are written as Int, which takes more than the two bytes reserved, so the
encoder panicked.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index bfce0af..d24ac9b 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -244,7 +244,7 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        u64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
@@ -271,7 +271,7 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        i64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
-- 
2.43.0


From 263b7424ea6be5da0f97349047869bf1463970f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 04/29] fix: sign extend integers stored in fewer than 8 bytes

Negative integers read as large positive ones.
---
 src/value/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..b2b7fab 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -266,7 +266,10 @@ impl Value {
             ValueType::Short => i64::from(self.to_short()),
             ValueType::Int | ValueType::UnsignedInt => {
                 let count = (self.bytes[0] & 0x07) as usize + 1;
-                let mut buf = [0u8; 8];
+                // A signed int may be stored in fewer than 8 bytes, so sign extend it.
+                let negative =
+                    self.value_type() == ValueType::Int && self.bytes[count] & 0x80 != 0;
+                let mut buf = [if negative { 0xFF } else { 0u8 }; 8];
                 unsafe {
                     core::ptr::copy_nonoverlapping(
                         self.bytes[1..].as_ptr(),
-- 
2.43.0


From 98b7f68073465831cdb23f102997e27d7ccc5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 05/29] fix: keep the tag of inline strings and data in narrow
 collections

Clearing bit 6 turned every empty or one-byte string, data or key into an
integer.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index d24ac9b..bc48dce 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -609,7 +609,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From 6e60996912b8dbec3af98203cbca2fce48a07931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 06/29] fix: decide the width of a collection from where its
 pointers will be

The distance was measured from the start of the collection instead of the
element holding the pointer, for dict keys from the wrong point altogether,
and for dict elements before they were sorted. Pointers near the limit
overflowed and led elsewhere.
---
 src/encoder/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..1d76b99 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -422,29 +422,40 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    /// The offset of the first element of a collection whose header takes `header_size` bytes, if
+    /// the header is written now. Elements are evenly aligned, like everything in the output.
+    fn _first_elem_offset(&self, header_size: usize) -> usize {
+        (self.out.len() + header_size + 1) & !1
+    }
+
+    // Pointers are relative to the element they are stored in, so the header and the elements before
+    // it count towards the distance.
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut len = self._first_elem_offset(array.fleece_size());
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            len += 2;
         }
         false
     }
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
+    // The elements must already be in their final order.
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut len = self._first_elem_offset(dict.fleece_size());
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if len - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-- 
2.43.0


From cab9db376d7d7aab8206a8d98ca00e8a80fadf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 07/29] fix: keep the open dict when end_array is refused

The dict was popped, and its contents lost, before the error was returned.
---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 1d76b99..6cbf4b0 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,9 +196,13 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        // Can only end an array if the top collection is an array
+        let Some(Collection::Array(_)) = self.collection_stack.top() else {
             return Err(EncodeError::ArrayNotOpen);
         };
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
+        };
         let is_wide = self._array_should_be_wide(&array);
 
         // Write the Array header via `Encodable` trait
-- 
2.43.0


From a1b9ccd68f5d640417734b54e68838fe57cdffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 08/29] fix: write nothing for a key or value the encoder
 refuses

A refused key still went to the output (after the root, if the document was
already closed, which made it unreadable) or into the shared keys.
---
 src/encoder/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 6cbf4b0..63bd77d 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -109,6 +109,13 @@ impl Encoder {
             return Err(EncodeError::CollectionNotOpen);
         }
 
+        // Nothing may be written for a value which the open collection cannot take.
+        if let Some(Collection::Dict(dict)) = self.collection_stack.top() {
+            if dict.next_key.is_none() {
+                return Err(EncodeError::DictWaitingForKey);
+            }
+        }
+
         let value = value.borrow();
         if let Some(val) = value.to_sized_value() {
             // If the value can fit in a fixed-width Value, just push it to the current collection
@@ -366,6 +373,14 @@ impl Encoder {
     }
 
     fn _write_key(&mut self, key: &str) -> Result<()> {
+        // Nothing may be written, or added to the shared keys, for a key which cannot be taken.
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_some() => {
+                return Err(EncodeError::DictWaitingForValue)
+            }
+            Some(Collection::Dict(_)) => {}
+            _ => return Err(EncodeError::DictNotOpen),
+        }
         if let Some(shared_keys) = &mut self.shared_keys {
             let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
                 return Err(EncodeError::DictNotOpen);
-- 
2.43.0


From c54647e8338ce8fdc20234e6db70824371ac89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 09/29] fix: Array::get with the index equal to the length

It returned a reference to the bytes behind the array.
---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From a477725598b85b5356131ce699a77ae3be70821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 10/29] fix: refuse varints of more than 64 bits

---
 src/value/varint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..5b8d2e8 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,18 +12,18 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
             res |= u64::from(*byte & 0x7F) << shift;
             shift += 7;
         } else {
-            res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // The last byte of the longest varint holds a single bit
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
+            res |= u64::from(*byte) << shift;
             return (i + 2, res);
         }
     }
-- 
2.43.0


From b47240e0377182d19e743a00bf8b516a2486a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 11/29] fix: take the size of strings and data from their
 header

---
 src/value/mod.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index b2b7fab..684b448 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -390,15 +390,14 @@ impl Value {
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                let available_size = data_end as usize - self.bytes.as_ptr() as usize;
+                if IS_ARR_ELEM || self.required_size() <= available_size {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
                         required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        available_size,
                     })
                 }
             }
@@ -420,12 +419,8 @@ impl Value {
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
-                }
+                let (start, len) = self._data_range();
+                start.saturating_add(len).max(2)
             }
             // TODO: This is not correct for MutableArray / MutableDict
             ValueType::Array | ValueType::Dict => 2,
@@ -514,19 +509,23 @@ impl Value {
         if self.bytes.len() < 2 {
             return &[];
         }
+        let (start, len) = self._data_range();
+        self.bytes[start..].get(..len).unwrap_or_default()
+    }
+
+    /// Where the bytes of a string or data value start, and how many there are according to its
+    /// header. They only lie within this value if it has been validated.
+    fn _data_range(&self) -> (usize, usize) {
         let inline_size = self.bytes[0] & 0x0F;
         if inline_size == 0x0F {
-            // varint
-            let (bytes_read, size) = varint::read(&self.bytes[1..]);
-            if bytes_read == 0 {
-                return &[];
+            match varint::read(&self.bytes[1..]) {
+                // Not a varint, so no length could be large enough
+                (0, _) => (1, usize::MAX),
+                #[allow(clippy::cast_possible_truncation)]
+                (bytes_read, size) => (1 + bytes_read, size as usize),
             }
-            #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
         } else {
-            let end = 1 + inline_size as usize;
-            &self.bytes[1..end]
+            (1, inline_size as usize)
         }
     }
 
-- 
2.43.0


From d88b653ad8cf91872c895b13529f5c6055a3d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 12/29] fix: validate that a value fits before the pointer to
 it

---
 src/value/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 684b448..13fbe2a 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -139,7 +139,8 @@ impl Value {
     pub fn from_bytes(data: &[u8]) -> Result<&Self> {
         let root = Self::_find_root(data)?;
         let data_start = data.as_ptr();
-        let data_end = unsafe { data_start.add(data.len()) };
+        // The root must fit between its start and the pointer to it.
+        let data_end = root.bytes.as_ptr_range().end;
         // wide parameter doesn't matter here, as it's only used for pointers, and find_root will
         // never return a pointer.
         root._validate::<false>(false, data_start, data_end)?;
@@ -385,7 +386,10 @@ impl Value {
             }
             ValueType::Pointer => {
                 let target = Pointer::from_value(self).deref_checked(is_wide, data_start)?;
-                target._validate::<false>(is_wide, data_start, self.bytes.as_ptr())
+                // The target must fit between its start and the last pointer on the way to it, which
+                // isn't necessarily this one.
+                let target_end = target.bytes.as_ptr_range().end;
+                target._validate::<false>(is_wide, data_start, target_end)
             }
             _ => {
                 // We don't need to validate that array elements fit within the data, as
-- 
2.43.0


From a45c19aef34b3107a82d94fed621100ac3b1c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 13/29] fix: refuse external pointers with an error

---
 src/value/error.rs   |  7 +++++++
 src/value/pointer.rs | 14 ++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/value/error.rs b/src/value/error.rs
index caac784..fd93f58 100644
--- a/src/value/error.rs
+++ b/src/value/error.rs
@@ -13,6 +13,9 @@ pub enum DecodeError {
         expected: usize,
     },
     PointerOffsetZero,
+    ExternalPointer {
+        offset: u32,
+    },
     IsNotDict,
     IsNotArray,
     PointerTargetOutOfBounds {
@@ -42,6 +45,10 @@ impl fmt::Display for DecodeError {
                 "Pointer expected to be {expected} bytes, but was {actual} bytes"
             ),
             DecodeError::PointerOffsetZero => write!(f, "Pointer offset of 0"),
+            DecodeError::ExternalPointer { offset } => write!(
+                f,
+                "Pointer with offset {offset} to external data, which is not supported"
+            ),
             DecodeError::IsNotDict => write!(f, "Value is not a dictionary"),
             DecodeError::IsNotArray => write!(f, "Value is not an array"),
             DecodeError::PointerTargetOutOfBounds {
diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..9637f2a 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -32,16 +32,18 @@ impl Pointer {
             return Err(DecodeError::PointerOffsetZero);
         }
 
+        // Is this pointer external to the source data?
+        if self.value.bytes[0] & 0x40 != 0 {
+            // TODO: resolve_external_pointer(target_ptr, data_start, data_end)
+            return Err(DecodeError::ExternalPointer { offset });
+        }
+
         // First get the pointer given by offset, so we can validate before de-referencing
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = unsafe { self.offset(-(offset as isize)) };
 
-        // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // The target should fit within the source data
+        if target_ptr < data_start {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
                 target: target_ptr as usize,
-- 
2.43.0


From 65d243ed9ee340205b76f7cb53103a06e582464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 14/29] fix: validate collections whose size does not fit in
 memory

---
 src/value/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..68ac60c 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,8 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
-- 
2.43.0


From 0c4c8a0aeb2279ff4d6a0da41332f6eacab93e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 15/29] fix: validate the type of dictionary keys

---
 src/value/array.rs |  9 +++++++--
 src/value/error.rs |  6 ++++++
 src/value/mod.rs   | 13 +++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 68ac60c..3218f86 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -191,11 +191,16 @@ impl Array {
             });
         }
 
+        let is_dict = self.value.value_type() == ValueType::Dict;
         let mut current = first;
 
-        for _ in 0..elem_count {
+        for i in 0..elem_count {
             let next = unsafe { current.add(width) };
-            Value::_from_raw(current, width)?._validate::<true>(is_wide, data_start, next)?;
+            let elem = Value::_from_raw(current, width)?;
+            elem._validate::<true>(is_wide, data_start, next)?;
+            if is_dict && i % 2 == 0 {
+                elem._validate_dict_key(is_wide)?;
+            }
             current = next;
         }
 
diff --git a/src/value/error.rs b/src/value/error.rs
index fd93f58..8580b6c 100644
--- a/src/value/error.rs
+++ b/src/value/error.rs
@@ -18,6 +18,9 @@ pub enum DecodeError {
     },
     IsNotDict,
     IsNotArray,
+    InvalidDictKey {
+        value_type: ValueType,
+    },
     PointerTargetOutOfBounds {
         data_start: usize,
         target: usize,
@@ -50,6 +53,9 @@ impl fmt::Display for DecodeError {
                 "Pointer with offset {offset} to external data, which is not supported"
             ),
             DecodeError::IsNotDict => write!(f, "Value is not a dictionary"),
+            DecodeError::InvalidDictKey { value_type } => {
+                write!(f, "Dictionary key is neither a string nor a shared key, but {value_type:?}")
+            }
             DecodeError::IsNotArray => write!(f, "Value is not an array"),
             DecodeError::PointerTargetOutOfBounds {
                 data_start,
diff --git a/src/value/mod.rs b/src/value/mod.rs
index 13fbe2a..45a2dcc 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -408,6 +408,19 @@ impl Value {
         }
     }
 
+    /// Dict keys are strings or, with shared keys, shorts. `self` must already be validated.
+    pub(super) fn _validate_dict_key(&self, is_wide: bool) -> Result<()> {
+        let key = if self.value_type() == ValueType::Pointer {
+            unsafe { Pointer::from_value(self).deref_unchecked(is_wide) }
+        } else {
+            self
+        };
+        match key.value_type() {
+            ValueType::String | ValueType::Short => Ok(()),
+            value_type => Err(DecodeError::InvalidDictKey { value_type }),
+        }
+    }
+
     // The number of bytes required to hold this value
     // For Dict and Array, this does not include the size of elements, only the header
     #[allow(clippy::match_same_arms)]
-- 
2.43.0


From 94963e17da3d53ed4ad16cd121324bf43c7efcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 16/29] fix: store all 16 characters of the longest shared keys

---
 src/shared_keys.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..f99daf3 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,10 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// One byte longer than the longest key, for the terminating zero.
+type StrKey = zstr<{ SharedKeys::MAX_KEY_LEN as usize + 1 }>;
+
+pub struct SharedKeys(folklore::HashMap<StrKey, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -133,7 +136,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, StrKey, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From c63fe986ef927d9e67a6be9bdad6ac669c9fb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 17/29] fix: look up only strings which could be shared keys

---
 src/shared_keys.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index f99daf3..e29db93 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -33,6 +33,11 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        // A string which cannot be a shared key must not be taken for one that looks alike after
+        // `zstr` has truncated it.
+        if !Self::is_eligible(string_key) {
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
@@ -60,9 +65,12 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::is_eligible(key)
+    }
+
+    #[inline]
+    fn is_eligible(key: &str) -> bool {
+        key.len() <= Self::MAX_KEY_LEN as usize && Self::can_encode(key)
     }
 
     #[inline]
-- 
2.43.0


From 04016ddded1ecae58f89816e2a31e523968867d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 18/29] fix: use shared keys which are present in a full set

---
 src/shared_keys.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index e29db93..04f1dc5 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -44,13 +44,14 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        // A present key has its id even when there is no room for another one.
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From e9d14a7203cf699a8606016eb98da47e608b1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 19/29] fix: refuse a damaged shared keys state

---
 src/shared_keys.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 04f1dc5..efbecdc 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -92,9 +92,15 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
-            shared_keys.encode_and_insert(borrowed_key)?;
+            let index = shared_keys.len();
+            // Every key must have its position as its id, which a duplicate would not have.
+            if shared_keys.encode_and_insert(borrowed_key)? != index {
+                return None;
+            }
         }
         Some(shared_keys)
     }
-- 
2.43.0


From dea25f6b966199d0400e3285078f2024bbe5528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 20/29] fix: find keys which are in the shared keys but were
 written as strings

---
 src/value/dict.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..0f12298 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_str(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,18 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_str(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    fn _get_str(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        let encoded = self.encode_key(key, shared_keys);
+        let found = self._get(&encoded);
+        if found.is_none() && matches!(encoded, Key::Shared(_)) {
+            // The encoder inlines the smallest keys, whether or not they are in the shared keys.
+            // The dict also may have been encoded without these shared keys.
+            return self._get(&Key::String(key));
+        }
+        found
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From 064c22b4e3d446cae78f17ad6caac928d9730163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 21/29] fix: convert and validate the data of a scope before
 taking the lock

---
 src/scope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..416cf38 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -75,7 +75,7 @@ impl Scope {
     #[allow(clippy::missing_panics_doc)]
     /// Create a new scope which retains the data it is given ownership of, and optionally retains the given [`SharedKeys`].
     pub fn new(data: impl Into<Arc<[u8]>>, shared_keys: Option<Arc<SharedKeys>>) -> Arc<Self> {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
+        // The conversion may be client code and may panic, so it happens before taking the lock.
         let strong_data = data.into();
         let weak_data = Arc::downgrade(&strong_data);
 
@@ -91,6 +91,7 @@ impl Scope {
             root,
         });
 
+        let mut scope_map = SCOPE_MAP.write().unwrap();
         scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
         scope
     }
-- 
2.43.0


From ef41af9070bbd6c000a2fbf716e98d7af61bca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 22/29] fix: accept empty data in a scope

---
 src/scope.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 416cf38..8ef42f5 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,7 +65,7 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             scope_map.remove(range);
         }
     }
@@ -91,8 +91,11 @@ impl Scope {
             root,
         });
 
-        let mut scope_map = SCOPE_MAP.write().unwrap();
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // Empty data contains no address to find it by.
+        if start < end {
+            let mut scope_map = SCOPE_MAP.write().unwrap();
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From 9ba3089c7a1c0624cc876f0cf86df5596374174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 23/29] fix: keep every scope of the same data findable

---
 src/scope.rs | 55 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 8ef42f5..cf87684 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,5 +1,8 @@
-use alloc::sync::{Arc, Weak};
-use core::{ops::Deref, ptr::NonNull};
+use alloc::{
+    sync::{Arc, Weak},
+    vec::Vec,
+};
+use core::ptr::NonNull;
 use crossbeam_utils::sync::ShardedLock;
 use lazy_static::lazy_static;
 use rangemap::RangeMap;
@@ -66,7 +69,12 @@ impl Scope {
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
         if let Some(range) = self.range().filter(|range| !range.is_empty()) {
-            scope_map.remove(range);
+            let entry = scope_map.get(&range.start).map(|e| e.without(self));
+            match entry {
+                // Other scopes which hold the same data can still be found.
+                Some(entry) if !entry.0.is_empty() => scope_map.insert(range, entry),
+                _ => scope_map.remove(range),
+            }
         }
     }
 
@@ -94,7 +102,11 @@ impl Scope {
         // Empty data contains no address to find it by.
         if start < end {
             let mut scope_map = SCOPE_MAP.write().unwrap();
-            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+            let mut entry = scope_map
+                .get(&start)
+                .map_or_else(ScopeEntry::default, |e| e.without(&scope));
+            entry.0.push(Arc::downgrade(&scope));
+            scope_map.insert(start..end, entry);
         }
         scope
     }
@@ -111,7 +123,7 @@ impl Scope {
     pub fn containing(data: *const u8) -> Option<Arc<Self>> {
         let scope_map = SCOPE_MAP.read().unwrap();
         let entry = scope_map.get(&(data as usize))?;
-        entry.upgrade()
+        entry.0.iter().rev().find_map(Weak::upgrade)
     }
 }
 
@@ -129,32 +141,29 @@ impl PartialEq for Scope {
 
 impl Eq for Scope {}
 
-#[derive(Clone)]
-struct ScopeEntry(Weak<Scope>);
+/// The scopes which hold some data, the most recent one last.
+#[derive(Clone, Default)]
+struct ScopeEntry(Vec<Weak<Scope>>);
+
+impl ScopeEntry {
+    /// The living scopes in this entry, apart from the given one.
+    fn without(&self, scope: &Scope) -> Self {
+        let others = self
+            .0
+            .iter()
+            .filter(|other| other.strong_count() > 0 && !core::ptr::eq(other.as_ptr(), scope));
+        Self(others.cloned().collect())
+    }
+}
 
 impl PartialEq for ScopeEntry {
     fn eq(&self, other: &Self) -> bool {
-        let Some(self_scope) = self.0.upgrade() else {
-            return false;
-        };
-        let Some(other_scope) = other.0.upgrade() else {
-            return false;
-        };
-        self_scope.eq(&other_scope)
+        self.0.len() == other.0.len() && self.0.iter().zip(&other.0).all(|(a, b)| a.ptr_eq(b))
     }
 }
 
 impl Eq for ScopeEntry {}
 
-impl Deref for ScopeEntry {
-    type Target = Weak<Scope>;
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
 unsafe impl Send for Scope {}
 unsafe impl Sync for Scope {}
 
-- 
2.43.0


From 58638ca372334de07ad2143379438d4704d5099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 24/29] fix: deserialize newtype structs

---
 src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..f37a232 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,13 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -229,7 +236,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From c2f4a244f22ed1c49c48d011e6aeddb569993f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 25/29] fix: deserialize unit structs

---
 src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index f37a232..a20d16c 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,17 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // The serializer writes unit structs as null.
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -236,7 +247,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct str tuple_struct identifier ignored_any
+        unit str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 5c8ca49f8a8be6b228b9bf511a43543e011e3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 26/29] fix: follow chains of pointers without recursion

---
 src/value/pointer.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 9637f2a..2fee944 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -20,6 +20,16 @@ impl Pointer {
     }
 
     pub(crate) fn deref_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
+        let mut target = self._target_checked(wide, data_start)?;
+        // A loop, because the data decides how many pointers are on the way.
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target)._target_checked(true, data_start)?;
+        }
+        Ok(target)
+    }
+
+    /// The value this points to, which may be another pointer.
+    fn _target_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
         if (wide && self.value.bytes.len() < 4) || self.value.bytes.len() < 2 {
             return Err(DecodeError::PointerTooSmall {
                 actual: self.value.bytes.len(),
@@ -51,30 +61,29 @@ impl Pointer {
             });
         }
 
-        let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_checked(true, data_start);
-        }
-        Ok(target)
+        Ok(unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) })
     }
 
     /// Dereferences the pointer, returning the value it points to.
     /// # Safety
     /// The data should be validated before calling this function.
     pub(crate) unsafe fn deref_unchecked(&self, wide: bool) -> &Value {
+        let mut target = self._target_unchecked(wide);
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target)._target_unchecked(true);
+        }
+        target
+    }
+
+    #[inline]
+    unsafe fn _target_unchecked(&self, wide: bool) -> &Value {
         let offset = unsafe { self.get_offset(wide) };
         debug_assert_ne!(offset, 0);
 
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = self.offset(-(offset as isize));
 
-        let target = Value::_from_raw_unchecked(target_ptr, offset as usize);
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_unchecked(true);
-        }
-        target
+        Value::_from_raw_unchecked(target_ptr, offset as usize)
     }
 
     #[inline]
-- 
2.43.0


From cf0984bec1a85b40a212c224843a32020d29e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 27/29] fix: copy all pairs of a keyed dict whose scope was
 removed

---
 src/mutable.rs       | 32 +++++++++++++++++++++++++++-----
 src/mutable/array.rs | 22 +++++++++++++---------
 src/mutable/dict.rs  | 11 +++++++----
 src/value/dict.rs    | 28 ++++++++++++++++++----------
 4 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/src/mutable.rs b/src/mutable.rs
index 5df7bec..0fd59bc 100644
--- a/src/mutable.rs
+++ b/src/mutable.rs
@@ -1,14 +1,14 @@
 pub mod array;
 pub mod dict;
 
-use alloc::boxed::Box;
+use alloc::{boxed::Box, sync::Arc};
 
 pub use array::MutableArray;
 pub use dict::MutableDict;
 
 use crate::{
     encoder::{Encodable, NullValue, UndefinedValue},
-    value, Value,
+    value, Scope, SharedKeys, Value,
 };
 
 const INLINE_CAPACITY: usize = 15;
@@ -38,6 +38,22 @@ impl ValueSlot {
     }
 
     pub fn new_from_fleece(value: &Value, is_wide: bool) -> Self {
+        // Only dicts have keys, and only collections contain dicts.
+        let shared_keys = match value.value_type() {
+            crate::ValueType::Array | crate::ValueType::Dict => {
+                Scope::find_shared_keys(value.bytes.as_ptr())
+            }
+            _ => None,
+        };
+        Self::copy_with_shared_keys(value, is_wide, shared_keys.as_ref())
+    }
+
+    /// Copy the value, using the [`SharedKeys`] of the data it is part of for any dicts in it.
+    pub fn copy_with_shared_keys(
+        value: &Value,
+        is_wide: bool,
+        shared_keys: Option<&Arc<SharedKeys>>,
+    ) -> Self {
         match value.value_type() {
             crate::ValueType::Null => Self::new(NullValue),
             crate::ValueType::Undefined => Self::new(UndefinedValue),
@@ -51,16 +67,22 @@ impl ValueSlot {
             crate::ValueType::String => Self::new(value.to_str()),
             crate::ValueType::Data => Self::new(value.to_data()),
             crate::ValueType::Array => {
-                Self::new_array(MutableArray::clone_from(value.as_array().unwrap()))
+                let array = value.as_array().unwrap();
+                Self::new_array(MutableArray::copy_with_shared_keys(array, shared_keys))
             }
             crate::ValueType::Dict => {
-                Self::new_dict(MutableDict::clone_from(value.as_dict().unwrap()))
+                let dict = value.as_dict().unwrap();
+                Self::new_dict(MutableDict::copy_with_shared_keys(
+                    dict,
+                    shared_keys.cloned(),
+                ))
             }
-            crate::ValueType::Pointer => Self::new_from_fleece(
+            crate::ValueType::Pointer => Self::copy_with_shared_keys(
                 unsafe {
                     crate::value::pointer::Pointer::from_value(value).deref_unchecked(is_wide)
                 },
                 false,
+                shared_keys,
             ),
         }
     }
diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..20fe8e9 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -1,11 +1,11 @@
 use core::ops::Index;
 
-use alloc::vec::Vec;
+use alloc::{sync::Arc, vec::Vec};
 
 use crate::{
     alloced::{AllocedArray, AllocedValue},
     encoder::Encodable,
-    Array, Scope, Value,
+    Array, Scope, SharedKeys, Value,
 };
 
 use super::{MutableDict, ValueSlot};
@@ -24,10 +24,18 @@ impl MutableArray {
 
     #[must_use]
     pub fn clone_from(source: &Array) -> Self {
+        let shared_keys = Scope::find_shared_keys(source.value.bytes.as_ptr());
+        Self::copy_with_shared_keys(source, shared_keys.as_ref())
+    }
+
+    pub(super) fn copy_with_shared_keys(
+        source: &Array,
+        shared_keys: Option<&Arc<SharedKeys>>,
+    ) -> Self {
         let mut this = Self::new();
         let is_wide = source.is_wide();
         for v in source {
-            let slot = ValueSlot::new_from_fleece(v, is_wide);
+            let slot = ValueSlot::copy_with_shared_keys(v, is_wide, shared_keys);
             this.list.push(slot);
         }
         this
@@ -41,7 +49,7 @@ impl MutableArray {
         scope
             .root()
             .and_then(AllocedValue::to_array)
-            .map(|source| Self::clone_from(&source))
+            .map(|source| Self::copy_with_shared_keys(&source, scope.shared_keys()))
     }
 
     pub fn get(&self, index: usize) -> Option<&Value> {
@@ -233,10 +241,6 @@ impl TryFrom<&Scope> for MutableArray {
     /// # Errors
     /// Returns `Err(())` if the scope does not have a [`Scope::root`], or the root is not an [`Array`].
     fn try_from(scope: &Scope) -> Result<Self, Self::Error> {
-        if let Some(source) = scope.root().and_then(AllocedValue::to_array) {
-            Ok(Self::from(source))
-        } else {
-            Err(())
-        }
+        Self::from_scope(scope).ok_or(())
     }
 }
diff --git a/src/mutable/dict.rs b/src/mutable/dict.rs
index e29de42..4bb9d22 100644
--- a/src/mutable/dict.rs
+++ b/src/mutable/dict.rs
@@ -54,14 +54,17 @@ impl MutableDict {
             .map(|source| Self::copy_with_shared_keys(&source, scope.shared_keys().cloned()))
     }
 
-    fn copy_with_shared_keys(source: &Dict, shared_keys: Option<Arc<SharedKeys>>) -> Self {
+    pub(super) fn copy_with_shared_keys(
+        source: &Dict,
+        shared_keys: Option<Arc<SharedKeys>>,
+    ) -> Self {
         let mut this = Self {
-            shared_keys,
+            shared_keys: shared_keys.clone(),
             ..Default::default()
         };
         let is_wide = source.is_wide();
-        for (k, v) in source {
-            let slot = ValueSlot::new_from_fleece(v, is_wide);
+        for (k, v) in source.iter_with_shared_keys(shared_keys.clone()) {
+            let slot = ValueSlot::copy_with_shared_keys(v, is_wide, shared_keys.as_ref());
             let key = this.encode_key(k);
             this.map.insert(key, slot);
         }
diff --git a/src/value/dict.rs b/src/value/dict.rs
index 0f12298..6f87098 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -227,6 +227,23 @@ impl Dict {
     pub fn iter(&self) -> <&Self as IntoIterator>::IntoIter {
         self.into_iter()
     }
+
+    /// Iterate using the [`SharedKeys`] which the caller already has for this dict.
+    pub(crate) fn iter_with_shared_keys(
+        &self,
+        shared_keys: Option<Arc<SharedKeys>>,
+    ) -> <&Self as IntoIterator>::IntoIter {
+        if let Some(shared_keys) = shared_keys {
+            Box::new(SharedKeyIter {
+                array_iter: self.array.into_iter(),
+                shared_keys,
+            }) as Box<dyn Iterator<Item = _>>
+        } else {
+            Box::new(Iter {
+                array_iter: self.array.into_iter(),
+            }) as Box<dyn Iterator<Item = _>>
+        }
+    }
 }
 
 impl Index<&str> for Dict {
@@ -294,16 +311,7 @@ impl<'a> IntoIterator for &'a Dict {
     type IntoIter = Box<dyn Iterator<Item = Self::Item> + 'a>;
 
     fn into_iter(self) -> Self::IntoIter {
-        if let Some(shared_keys) = self.find_shared_keys() {
-            Box::new(SharedKeyIter {
-                array_iter: self.array.into_iter(),
-                shared_keys,
-            }) as Box<dyn Iterator<Item = Self::Item>>
-        } else {
-            Box::new(Iter {
-                array_iter: self.array.into_iter(),
-            }) as Box<dyn Iterator<Item = Self::Item>>
-        }
+        self.iter_with_shared_keys(self.find_shared_keys())
     }
 }
 
-- 
2.43.0


From 944a59b8306528df481a3f79e978cc14c763fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 28/29] fix: size hint of a mutable array iterator counts what
 is left

---
 src/mutable/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 20fe8e9..f49f254 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -204,8 +204,8 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
-        (len, Some(len))
+        let remaining = self.arr.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From c8089a5c1795d5cca203744ba62a820ae0f75e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 29/29] fix: deserialize struct variants with skipped or extra
 fields

---
 src/de.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index a20d16c..9cd0d9b 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -433,7 +433,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         )))
     }
 
-    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value>
+    fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
@@ -444,23 +444,12 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
                 .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
                     format!("{:?}", self.array),
                 )))?;
-        if let Some(dict) = inner.as_dict() {
-            if dict.len() == fields.len() {
-                let correct_keys = if let Some(sk) = self.shared_keys.shared_keys() {
-                    fields
-                        .iter()
-                        .all(|field| dict.contains_key_with_shared_keys(field, sk))
-                } else {
-                    fields.iter().all(|field| dict.contains_key(field))
-                };
-
-                if correct_keys {
-                    return de::Deserializer::deserialize_map(
-                        &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
-                        visitor,
-                    );
-                }
-            }
+        // The visitor decides about missing or unknown fields, as it does for structs.
+        if inner.as_dict().is_some() {
+            return de::Deserializer::deserialize_map(
+                &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
+                visitor,
+            );
         }
         Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
             format!("{:?}", self.array),
-- 
2.43.0

