"""Refactorings of the copies and views of documents (C33) and of the iterators (C27)."""
M="src/yason/mod.rs"; O="src/yason/object.rs"; A="src/yason/array.rs"
refac("v-assign-reuse",[(M,"        self.bytes.clear();\n        self.bytes.extend_from_slice(yason.as_bytes())","        let src = yason.as_bytes();\n        let n = self.bytes.len().min(src.len());\n        self.bytes.truncate(n);\n        self.bytes[..n].copy_from_slice(&src[..n]);\n        self.bytes.extend_from_slice(&src[n..])")])
refac("v-assign-clone",[(M,"        self.bytes.clear();\n        self.bytes.extend_from_slice(yason.as_bytes())","        yason.as_bytes().clone_into(&mut self.bytes)")])
refac("v-assign-new",[(M,"        self.bytes.clear();\n        self.bytes.extend_from_slice(yason.as_bytes())","        self.bytes = yason.bytes.to_vec();")])
refac("v-owned-helper",[(M,"        unsafe { YasonBuf::new_unchecked(self.bytes.to_vec()) }","        let mut bytes = Vec::with_capacity(self.bytes.len());\n        bytes.extend_from_slice(self.as_bytes());\n        YasonBuf { bytes }")])
refac("v-copy-exact",[(M,"        let mut bytes = Vec::new();\n        bytes\n            .try_reserve(self.bytes.len())\n            .map_err(YasonError::TryReserveError)?;\n        bytes.extend_from_slice(&self.bytes);\n\n        Ok(YasonBuf { bytes })","        let src = self.as_bytes();\n        let mut bytes = Vec::new();\n        if let Err(e) = bytes.try_reserve_exact(src.len()) {\n            return Err(YasonError::TryReserveError(e));\n        }\n        bytes.extend_from_slice(src);\n        Ok(unsafe { YasonBuf::new_unchecked(bytes) })")])
refac("v-deref-slice",[(M,"        unsafe { Yason::new_unchecked(&self.bytes) }","        unsafe { Yason::new_unchecked(self.bytes.as_slice()) }")])
refac("v-value-clone",[(M,"#[derive(Clone, Debug)]\npub enum Value<'a> {","impl Clone for Value<'_> {\n    #[inline]\n    fn clone(&self) -> Self {\n        match self {\n            Value::Null => Value::Null,\n            Value::Object(o) => Value::Object(o.clone()),\n            Value::Array(a) => Value::Array(a.clone()),\n            Value::String(s) => Value::String(s),\n            Value::Number(n) => Value::Number(*n),\n            Value::Bool(b) => Value::Bool(*b),\n        }\n    }\n}\n\n#[derive(Debug)]\npub enum Value<'a> {")])
