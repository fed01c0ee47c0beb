From 46566092a26f4482ecd8eb16141bce27c15ccd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 01/16] fix: do not access misaligned key offsets as u32 slices

---
 src/builder/object.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..e99439f 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -75,12 +75,15 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
 
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
+        // The key offsets are not necessarily aligned, so they cannot be accessed as `[u32]`.
+        let key_offsets_bytes = bytes[begin..end].as_ptr() as *const [u8; KEY_OFFSET_SIZE];
+        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
 
         for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+            let cur_offset = u32::from_le_bytes(key_offsets[i]) as usize;
+            let next_offset = u32::from_le_bytes(key_offsets[i + 1]) as usize;
+            let cur_key = Self::read_key_by_offset(bytes, cur_offset, self.start_pos);
+            let next_key = Self::read_key_by_offset(bytes, next_offset, self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -156,11 +159,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let begin = start_pos + ELEMENT_COUNT_SIZE;
         let end = begin + value_count * KEY_OFFSET_SIZE;
 
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
+        // The key offsets are not necessarily aligned, so they cannot be accessed as `[u32]`.
+        let key_offsets_bytes = bytes[begin..end].as_ptr() as *const [u8; KEY_OFFSET_SIZE];
         let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
 
         let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
+            let key = Self::read_key_by_offset(bytes, u32::from_le_bytes(*key_offset) as usize, start_pos);
             cmp_key(key, target)
         });
 
-- 
2.43.0


From 7eaa040d50d97f24ab7b8ded1dffd51abc621bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:15 +0000
Subject: [PATCH 02/16] fix: zero-fill the reserved header and entry space of
 encodings

---
 src/vec.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 454c0cd..905068d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -75,27 +75,21 @@ impl VecExt for Vec<u8> {
     fn skip_size(&mut self) {
         let new_len = self.len() + OBJECT_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_key_offset(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_value_entry(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
@@ -146,15 +140,11 @@ impl VecExt for Vec<u8> {
         let value_pos = length_pos + NUMBER_LENGTH_SIZE;
         let new_len = value_pos + MAX_BINARY_SIZE;
         debug_assert!(NUMBER_LENGTH_SIZE + MAX_BINARY_SIZE <= self.capacity() - self.len());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
         let bytes = &mut self[value_pos..value_pos + MAX_BINARY_SIZE];
-        // SAFETY: Because we have ensured that the memory is sufficient before encoding.
+        // The memory is sufficient for any number, so the encoding cannot fail.
         let size = value.compact_encode(bytes).expect("failed to encode number");
         self[length_pos] = size as u8;
-        unsafe {
-            self.set_len(value_pos + size);
-        }
+        self.truncate(value_pos + size);
     }
 }
-- 
2.43.0


From 362b8727aca8875b474a27b5054440fd000bee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 03/16] fix: reject pushing more elements than declared

---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..dbaa4ee 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index e99439f..bb7317e 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -121,6 +121,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From ce2682659f02e8a1a76a4b8ea52bb876d62d740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:55 +0000
Subject: [PATCH 04/16] fix: reject object keys whose length does not fit the
 key-length field

---
 src/binary.rs         | 1 +
 src/builder/mod.rs    | 2 ++
 src/builder/object.rs | 6 +++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..74e8479 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -11,6 +11,7 @@ pub const ELEMENT_COUNT_SIZE: usize = size_of::<u16>();
 pub const KEY_OFFSET_SIZE: usize = size_of::<u32>();
 pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..09bf69a 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -44,6 +44,7 @@ pub enum BuildError {
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
+    KeyTooLong(usize),
 }
 
 impl Display for BuildError {
@@ -61,6 +62,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::KeyTooLong(e) => write!(f, "key too long, length is {}", e),
         }
     }
 }
diff --git a/src/builder/object.rs b/src/builder/object.rs
index bb7317e..84c3b55 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -128,6 +128,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             });
         }
 
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::KeyTooLong(key.len()));
+        }
+
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
 
-- 
2.43.0


From 2c555744999b10206bd0e75b890565132f384eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:57 +0000
Subject: [PATCH 05/16] fix: do not panic when converting a build error to a
 yason error

---
 src/yason/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..8b8ee21 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From a442d82f9e99ada4523104766ee82221b5df10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:59 +0000
Subject: [PATCH 06/16] fix: reject element counts that do not fit the
 element-count field

---
 src/builder/mod.rs |  8 ++++++++
 src/json.rs        | 18 +++++++++---------
 src/path/mod.rs    |  3 ++-
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 09bf69a..d5f846d 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -45,6 +45,7 @@ pub enum BuildError {
     NumberError(NumberError),
     NestedTooDeeply,
     KeyTooLong(usize),
+    TooManyElements(usize),
 }
 
 impl Display for BuildError {
@@ -62,6 +63,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::TooManyElements(e) => write!(f, "too many elements, count is {}", e),
             BuildError::KeyTooLong(e) => write!(f, "key too long, length is {}", e),
         }
     }
@@ -78,6 +80,12 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+/// Converts the number of elements to the type of the element-count field.
+#[inline]
+pub(crate) fn checked_element_count(len: usize) -> BuildResult<u16> {
+    u16::try_from(len).map_err(|_| BuildError::TooManyElements(len))
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/json.rs b/src/json.rs
index ce41127..45119ad 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -1,6 +1,6 @@
 //! Json to Yason
 
-use crate::builder::{ArrBuilder, BuildResult, NumberError, ObjBuilder};
+use crate::builder::{checked_element_count, ArrBuilder, BuildResult, NumberError, ObjBuilder};
 use crate::{
     ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
 };
@@ -21,12 +21,12 @@ impl TryFrom<&serde_json::Value> for YasonBuf {
             Value::Number(val) => Scalar::number(number2decimal(val, &mut buf)?),
             Value::String(val) => Scalar::string(val),
             Value::Array(val) => {
-                let mut array_builder = ArrayBuilder::try_new(val.len() as u16)?;
+                let mut array_builder = ArrayBuilder::try_new(checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, &mut buf)?;
                 array_builder.finish()
             }
             Value::Object(val) => {
-                let mut object_builder = ObjectBuilder::try_new(val.len() as u16, false)?;
+                let mut object_builder = ObjectBuilder::try_new(checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, &mut buf)?;
                 object_builder.finish()
             }
@@ -56,12 +56,12 @@ impl Yason {
             Value::Number(val) => Scalar::number_with_vec(number2decimal(val, &mut buf)?, bytes),
             Value::String(val) => Scalar::string_with_vec(val, bytes),
             Value::Array(array) => {
-                let mut builder = ArrayRefBuilder::try_new(bytes, array.len() as u16)?;
+                let mut builder = ArrayRefBuilder::try_new(bytes, checked_element_count(array.len())?)?;
                 write_array(&mut builder, array, &mut buf)?;
                 builder.finish()
             }
             Value::Object(object) => {
-                let mut builder = ObjectRefBuilder::try_new(bytes, object.len() as u16, false)?;
+                let mut builder = ObjectRefBuilder::try_new(bytes, checked_element_count(object.len())?, false)?;
                 write_object(&mut builder, object, &mut buf)?;
                 builder.finish()
             }
@@ -86,12 +86,12 @@ fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf:
                 builder.push_string(val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(val.len() as u16)?;
+                let mut array_builder = builder.push_array(checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
@@ -121,12 +121,12 @@ fn write_object<T: ObjBuilder>(
                 builder.push_string(key, val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(key, val.len() as u16)?;
+                let mut array_builder = builder.push_array(key, checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(key, val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(key, checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..e6bfd22 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -4,6 +4,7 @@ use crate::path::parse::{FuncStep, PathParser, Step};
 use std::fmt;
 use std::str::FromStr;
 
+use crate::builder::checked_element_count;
 use crate::yason::YasonResult;
 use crate::{ArrayRefBuilder, DataType, Number, Value, Yason, YasonError};
 
@@ -196,7 +197,7 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, checked_element_count(values.len())?)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
-- 
2.43.0


From 4ea7164c6d1366e9c1a6567bd929a99d721cba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 07/16] fix: keep the builder consistent when pushing a value
 fails

---
 src/builder/array.rs  | 26 +++++++++++++++++---------
 src/builder/mod.rs    |  9 +++++++++
 src/builder/object.rs | 37 +++++++++++++++++++++----------------
 3 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index dbaa4ee..26bc19b 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,10 +1,11 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE,
+    OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number, ObjectRefBuilder};
@@ -24,9 +25,7 @@ pub(crate) struct InnerArrayBuilder<'a, B: AsMut<Vec<u8>>> {
 impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     pub(crate) fn try_new(mut bytes: B, element_count: u16, mut total_depth: Depth<'a>) -> BuildResult<Self> {
-        if total_depth.depth() >= MAX_NESTED_DEPTH {
-            return Err(BuildError::NestedTooDeeply);
-        }
+        check_nested_depth(total_depth.depth())?;
 
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
@@ -92,10 +91,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
         let offset = bytes.len() - self.start_pos;
 
+        // The value entry is left untouched if the value cannot be pushed.
         f(bytes, offset as u32, self.value_entry_pos)?;
+        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
 
         self.value_entry_pos += VALUE_ENTRY_SIZE;
         self.value_count += 1;
@@ -104,7 +104,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        let depth = self.total_nested_depth.depth();
+        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            check_nested_depth(depth)?;
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -116,7 +120,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        let depth = self.total_nested_depth.depth();
+        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            check_nested_depth(depth)?;
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -130,9 +138,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     fn push_string(&mut self, value: &str) -> BuildResult<()> {
         let size = MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.push_string(value)?;
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(DataType::String, f)
@@ -142,9 +150,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     fn push_number(&mut self, value: &Number) -> BuildResult<()> {
         let size = MAX_BINARY_SIZE + NUMBER_LENGTH_SIZE;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.push_number(value);
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(DataType::Number, f)
@@ -171,9 +179,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         let value = yason.as_bytes();
         let size = value.len();
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.extend_from_slice(value);
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(data_type, f)
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index d5f846d..7189e94 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -86,6 +86,15 @@ pub(crate) fn checked_element_count(len: usize) -> BuildResult<u16> {
     u16::try_from(len).map_err(|_| BuildError::TooManyElements(len))
 }
 
+/// Checks whether an object or array can be nested in a container of the specified depth.
+#[inline]
+pub(crate) fn check_nested_depth(depth: usize) -> BuildResult<()> {
+    if depth >= MAX_NESTED_DEPTH {
+        return Err(BuildError::NestedTooDeeply);
+    }
+    Ok(())
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 84c3b55..cb22c14 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -1,11 +1,11 @@
 //! Object builder.
 
 use crate::binary::{
-    BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    ARRAY_SIZE, BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
 use crate::util::cmp_key;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
@@ -33,9 +33,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         key_sorted: bool,
         mut total_depth: Depth<'a>,
     ) -> BuildResult<Self> {
-        if total_depth.depth() >= MAX_NESTED_DEPTH {
-            return Err(BuildError::NestedTooDeeply);
-        }
+        check_nested_depth(total_depth.depth())?;
 
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
@@ -135,10 +133,18 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
 
+        let key_pos = bytes.len();
+        let key_offset = key_pos - self.start_pos;
+        bytes.push_key(key);
+        if let Err(e) = f(bytes) {
+            // The key is removed if the value cannot be pushed.
+            bytes.truncate(key_pos);
+            return Err(e);
+        }
+
         if !self.key_sorted {
             let pos = Self::binary_search(key, bytes, self.start_pos, self.value_count as usize);
 
-            let key_offset = bytes.len() - self.start_pos;
             let offset_pos = self.start_pos + ELEMENT_COUNT_SIZE + pos * KEY_OFFSET_SIZE;
 
             if pos < self.value_count as usize {
@@ -149,17 +155,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
                 unsafe { ptr::copy(src, dst, count) }
             }
             bytes.write_offset(key_offset as u32, offset_pos);
-            bytes.push_key(key);
         } else {
-            let key_offset = bytes.len() - self.start_pos;
             bytes.write_offset(key_offset as u32, self.key_offset_pos);
-            bytes.push_key(key);
         }
 
         self.key_offset_pos += KEY_OFFSET_SIZE;
 
-        f(bytes)?;
-
         self.value_count += 1;
         Ok(())
     }
@@ -202,16 +203,20 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let depth = self.total_nested_depth.depth();
+        let nested_size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
+        let size = KEY_LENGTH_SIZE + key.len() + nested_size;
+        self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
     }
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let depth = self.total_nested_depth.depth();
+        let nested_size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
+        let size = KEY_LENGTH_SIZE + key.len() + nested_size;
+        self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
     }
-- 
2.43.0


From 0b3265609f355dd2bf4760a5f3671d850c996dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 08/16] fix: reject objects and arrays too large for the size
 and offset fields

---
 src/builder/array.rs  | 10 +++++-----
 src/builder/mod.rs    | 14 ++++++++++++++
 src/builder/object.rs | 12 ++++++------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 26bc19b..9a55ed6 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -5,7 +5,7 @@ use crate::binary::{
     OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
-use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
+use crate::builder::{check_nested_depth, checked_offset, checked_size, BuildResult, Depth, DEFAULT_SIZE};
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number, ObjectRefBuilder};
@@ -67,8 +67,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - ARRAY_SIZE);
+        let total_size = checked_size(bytes.len() - self.start_pos)?;
+        bytes.write_total_size(total_size, self.start_pos - ARRAY_SIZE);
 
         self.total_nested_depth.decrease();
 
@@ -91,10 +91,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        let offset = bytes.len() - self.start_pos;
+        let offset = checked_offset(bytes.len() - self.start_pos)?;
 
         // The value entry is left untouched if the value cannot be pushed.
-        f(bytes, offset as u32, self.value_entry_pos)?;
+        f(bytes, offset, self.value_entry_pos)?;
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
 
         self.value_entry_pos += VALUE_ENTRY_SIZE;
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 7189e94..c2a4313 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -46,6 +46,7 @@ pub enum BuildError {
     NestedTooDeeply,
     KeyTooLong(usize),
     TooManyElements(usize),
+    TooLarge(usize),
 }
 
 impl Display for BuildError {
@@ -64,6 +65,7 @@ impl Display for BuildError {
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
             BuildError::TooManyElements(e) => write!(f, "too many elements, count is {}", e),
+            BuildError::TooLarge(e) => write!(f, "object or array too large, size is {}", e),
             BuildError::KeyTooLong(e) => write!(f, "key too long, length is {}", e),
         }
     }
@@ -86,6 +88,18 @@ pub(crate) fn checked_element_count(len: usize) -> BuildResult<u16> {
     u16::try_from(len).map_err(|_| BuildError::TooManyElements(len))
 }
 
+/// Converts the total size of an object or array to the type of the size field.
+#[inline]
+pub(crate) fn checked_size(size: usize) -> BuildResult<i32> {
+    i32::try_from(size).map_err(|_| BuildError::TooLarge(size))
+}
+
+/// Converts the offset in an object or array to the type of the offset field.
+#[inline]
+pub(crate) fn checked_offset(offset: usize) -> BuildResult<u32> {
+    u32::try_from(offset).map_err(|_| BuildError::TooLarge(offset))
+}
+
 /// Checks whether an object or array can be nested in a container of the specified depth.
 #[inline]
 pub(crate) fn check_nested_depth(depth: usize) -> BuildResult<()> {
diff --git a/src/builder/object.rs b/src/builder/object.rs
index cb22c14..adb16ce 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -5,7 +5,7 @@ use crate::binary::{
     MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
-use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
+use crate::builder::{check_nested_depth, checked_offset, checked_size, BuildResult, Depth, DEFAULT_SIZE};
 use crate::util::cmp_key;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
@@ -102,8 +102,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - OBJECT_SIZE);
+        let total_size = checked_size(bytes.len() - self.start_pos)?;
+        bytes.write_total_size(total_size, self.start_pos - OBJECT_SIZE);
 
         self.total_nested_depth.decrease();
 
@@ -134,7 +134,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         bytes.try_reserve(reserved_size)?;
 
         let key_pos = bytes.len();
-        let key_offset = key_pos - self.start_pos;
+        let key_offset = checked_offset(key_pos - self.start_pos)?;
         bytes.push_key(key);
         if let Err(e) = f(bytes) {
             // The key is removed if the value cannot be pushed.
@@ -154,9 +154,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
                 unsafe { ptr::copy(src, dst, count) }
             }
-            bytes.write_offset(key_offset as u32, offset_pos);
+            bytes.write_offset(key_offset, offset_pos);
         } else {
-            bytes.write_offset(key_offset as u32, self.key_offset_pos);
+            bytes.write_offset(key_offset, self.key_offset_pos);
         }
 
         self.key_offset_pos += KEY_OFFSET_SIZE;
-- 
2.43.0


From 00069e6a8c84de55c7a85d89c2562bb0bf3be063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 09/16] fix: select the proper elements by the last and range
 array steps

---
 src/path/query.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..2d5652c 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
@@ -401,9 +401,16 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
+        if b > e {
+            return None;
+        }
         Some((b, e))
     }
 
+    if len == 0 {
+        return None;
+    }
+
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From 61eae22b8a2fe56e2506c1ab27ef93376641d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 10/16] fix: match a non-array value by the ranges of a
 multiple array step as a one-element array

---
 src/path/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 2d5652c..f94e371 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -379,14 +379,8 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
                 }
             },
 
-            SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+            SingleStep::Range(begin, end) => {
+                if find_range(begin, end, 1).is_some() {
                     return true;
                 }
             }
-- 
2.43.0


From 9e1a8b18901e7e98fede92acd9d0bc1c046d095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 11/16] fix: exclude trailing whitespaces from unquoted keys of
 path expressions

---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..37a3236 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -393,19 +393,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From a0e2fc6af0d27ae406da4370a045d35451d2394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 12/16] fix: parse the cells of an array step without recursion

---
 src/path/parse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 37a3236..5dbc414 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -209,7 +209,7 @@ impl<'a> PathParser<'a> {
             }
             _ => {
                 let mut steps = Vec::new();
-                self.parse_array_cell(&mut steps)?;
+                while self.parse_array_cell(&mut steps)? {}
                 debug_assert!(!steps.is_empty());
                 if steps.len() == 1 {
                     // SAFETY: steps.len() == 1
@@ -235,8 +235,9 @@ impl<'a> PathParser<'a> {
         Ok(())
     }
 
+    /// Parses one cell of an array step. Returns true if it is followed by another cell.
     #[inline]
-    fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
+    fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<bool> {
         let begin = self.parse_last_or_index()?;
         steps
             .try_reserve(std::mem::size_of::<Step>())
@@ -257,9 +258,9 @@ impl<'a> PathParser<'a> {
         if self.peek() == Some(COMMA) {
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
+            return Ok(true);
         }
-        Ok(())
+        Ok(false)
     }
 
     #[inline]
-- 
2.43.0


From 3b1f560cea8bad3170ee4a90acd51d560188887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 13/16] fix: escape all control characters when formatting
 strings

---
 src/format/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..3f90f41 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -324,14 +324,41 @@ const RR: &[u8] = b"\\r"; // \x0D
 const QU: &[u8] = b"\\\""; // \x22
 const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
+const U00: &[u8] = b"\\u0000";
+const U01: &[u8] = b"\\u0001";
+const U02: &[u8] = b"\\u0002";
+const U03: &[u8] = b"\\u0003";
+const U04: &[u8] = b"\\u0004";
+const U05: &[u8] = b"\\u0005";
+const U06: &[u8] = b"\\u0006";
+const U07: &[u8] = b"\\u0007";
+const U0B: &[u8] = b"\\u000b";
+const U0E: &[u8] = b"\\u000e";
+const U0F: &[u8] = b"\\u000f";
+const U10: &[u8] = b"\\u0010";
+const U11: &[u8] = b"\\u0011";
+const U12: &[u8] = b"\\u0012";
+const U13: &[u8] = b"\\u0013";
+const U14: &[u8] = b"\\u0014";
+const U15: &[u8] = b"\\u0015";
+const U16: &[u8] = b"\\u0016";
+const U17: &[u8] = b"\\u0017";
+const U18: &[u8] = b"\\u0018";
+const U19: &[u8] = b"\\u0019";
+const U1A: &[u8] = b"\\u001a";
+const U1B: &[u8] = b"\\u001b";
+const U1C: &[u8] = b"\\u001c";
+const U1D: &[u8] = b"\\u001d";
+const U1E: &[u8] = b"\\u001e";
+const U1F: &[u8] = b"\\u001f";
 const __: &[u8] = b"";
 
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    U00, U01, U02, U03, U04, U05, U06, U07, BB, TT, NN, U0B, FF, RR, U0E, U0F, // 0
+    U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U1A, U1B, U1C, U1D, U1E, U1F, // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 69781851ad9cc47d01b9751ca656fb292d07de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 14/16] fix: support indentation of deeply nested values

---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..4c4f051 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut remain = level * indent;
+    while remain > SPACE_BUF.len() {
+        writer.write_bytes(&SPACE_BUF)?;
+        remain -= SPACE_BUF.len();
+    }
+    writer.write_bytes(&SPACE_BUF[..remain])?;
     Ok(())
 }
-- 
2.43.0


From ec81c00849bbbea7850cecbf75b9641247093ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 15/16] fix: compare values instead of the lengths of their
 encodings

---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 8b8ee21..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -254,7 +254,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -545,7 +545,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From 188499cba48c288e55bf7640e77cb3993a608149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 16/16] fix: return errors instead of panicking on invalid
 lengths in encoded data

---
 src/util.rs         | 3 ++-
 src/yason/array.rs  | 6 +++++-
 src/yason/mod.rs    | 5 +++++
 src/yason/object.rs | 8 ++++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 12eb167..6523c17 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -72,7 +72,8 @@ pub fn decode_varint(buf: &[u8], index: usize) -> YasonResult<(u32, usize)> {
             return Ok((data_length, i + 1));
         }
     }
-    unreachable!("data length read error");
+    // The length field is not terminated within the maximum number of bytes.
+    Err(YasonError::InvalidDataLength(index))
 }
 
 #[cfg(test)]
diff --git a/src/yason/array.rs b/src/yason/array.rs
index 9f48e31..3cb1773 100644
--- a/src/yason/array.rs
+++ b/src/yason/array.rs
@@ -190,7 +190,11 @@ impl<'a> Array<'a> {
     #[inline]
     fn read_size(&self, value_pos: usize) -> YasonResult<i32> {
         let size_pos = value_pos + DATA_TYPE_SIZE;
-        self.0.read_i32(size_pos)
+        let size = self.0.read_i32(size_pos)?;
+        if size < 0 {
+            return Err(YasonError::InvalidDataLength(size_pos));
+        }
+        Ok(size)
     }
 
     #[inline]
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 79efd56..2ece205 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -24,6 +24,7 @@ pub enum YasonError {
     IndexOutOfBounds { len: usize, index: usize },
     UnexpectedType { expected: DataType, actual: DataType },
     InvalidDataType(u8),
+    InvalidDataLength(usize),
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
@@ -41,6 +42,7 @@ impl fmt::Display for YasonError {
                 write!(f, "data type mismatch, expect {}, but actual {}", expected, actual)
             }
             YasonError::InvalidDataType(e) => write!(f, "invalid data type value '{}'", e),
+            YasonError::InvalidDataLength(e) => write!(f, "invalid data length at position {}", e),
             YasonError::MultiValuesWithoutWrapper => {
                 write!(f, "multiple values cannot be returned without array wrapper")
             }
@@ -339,6 +341,9 @@ impl Yason {
     #[inline]
     fn read_number(&self, index: usize) -> YasonResult<Number> {
         let data_length = self.get(index)? as usize;
+        if data_length == 0 {
+            return Err(YasonError::InvalidDataLength(index));
+        }
         let end = index + NUMBER_LENGTH_SIZE + data_length;
         let bytes = self.slice(index + NUMBER_LENGTH_SIZE, end)?;
         Ok(Number::decode(bytes))
diff --git a/src/yason/object.rs b/src/yason/object.rs
index 67b6be7..399a60a 100644
--- a/src/yason/object.rs
+++ b/src/yason/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, OBJECT_SIZE};
 use crate::yason::array::Array;
-use crate::yason::{LazyValue, Value, Yason, YasonResult};
+use crate::yason::{LazyValue, Value, Yason, YasonError, YasonResult};
 use crate::{DataType, Number};
 
 /// An object in yason binary format.
@@ -234,7 +234,11 @@ impl<'a> Object<'a> {
     #[inline]
     fn read_size(&self, value_pos: usize) -> YasonResult<i32> {
         let size_pos = value_pos + DATA_TYPE_SIZE;
-        self.0.read_i32(size_pos)
+        let size = self.0.read_i32(size_pos)?;
+        if size < 0 {
+            return Err(YasonError::InvalidDataLength(size_pos));
+        }
+        Ok(size)
     }
 
     #[inline]
-- 
2.43.0

