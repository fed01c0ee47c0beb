YA="src/yason/array.rs"; YO="src/yason/object.rs"; YM="src/yason/mod.rs"; U="src/util.rs"; D="src/data_type.rs"
refac("get-ok-or", [(YM, """        self.bytes.get(index).map_or_else(
            || {
                Err(YasonError::IndexOutOfBounds {
                    len: self.bytes.len(),
                    index,
                })
            },
            |v| Ok(*v),
        )""", """        match self.bytes.get(index) {
            Some(&v) => Ok(v),
            None => Err(YasonError::IndexOutOfBounds { len: self.bytes.len(), index }),
        }""")])
refac("get-copied", [(YM, """        self.bytes.get(index).map_or_else(
            || {
                Err(YasonError::IndexOutOfBounds {
                    len: self.bytes.len(),
                    index,
                })
            },
            |v| Ok(*v),
        )""", """        let len = self.bytes.len();
        self.bytes.get(index).copied().ok_or(YasonError::IndexOutOfBounds { len, index })""")])
refac("slice-explicit", [(YM, """        self.bytes.get(from..to).ok_or_else(|| YasonError::IndexOutOfBounds {
            len: self.bytes.len(),
            index: to,
        })""", """        let len = self.bytes.len();
        if from > to || to > len {
            return Err(YasonError::IndexOutOfBounds { len, index: to });
        }
        Ok(&self.bytes[from..to])""")])
refac("read-array", [(YM, """        let end = index + size_of::<u32>();
        let bytes = self.slice(index, end)?;
        // SAFETY: The `bytes` must be valid because the `slice()` always takes 4 bytes.
        Ok(u32::from_le_bytes(bytes.try_into().unwrap()))""", """        Ok(u32::from_le_bytes(self.read_fixed::<4>(index)?))"""), (YM, """        let end = index + size_of::<u16>();
        let bytes = self.slice(index, end)?;
        // SAFETY: The `bytes` must be valid because the `slice()` always takes 2 bytes.
        Ok(u16::from_le_bytes(bytes.try_into().unwrap()))""", """        Ok(u16::from_le_bytes(self.read_fixed::<2>(index)?))"""), (YM, """        let end = index + size_of::<i32>();
        let bytes = self.slice(index, end)?;
        // SAFETY: The `bytes` must be valid because the `slice()` always takes 4 bytes.
        Ok(i32::from_le_bytes(bytes.try_into().unwrap()))""", """        Ok(i32::from_le_bytes(self.read_fixed::<4>(index)?))"""), (YM, """    #[inline]
    fn read_i32""", """    fn read_fixed<const N: usize>(&self, index: usize) -> YasonResult<[u8; N]> {
        let bytes = self.slice(index, index + N)?;
        let mut fixed = [0u8; N];
        fixed.copy_from_slice(bytes);
        Ok(fixed)
    }

    #[inline]
    fn read_i32"""), (YM, "use std::mem::size_of;\n", "")])
refac("read-manual", [(YM, """        let bytes = self.slice(index, end)?;
        // SAFETY: The `bytes` must be valid because the `slice()` always takes 2 bytes.
        Ok(u16::from_le_bytes(bytes.try_into().unwrap()))""", """        let bytes = self.slice(index, end)?;
        Ok(bytes[0] as u16 | (bytes[1] as u16) << 8)"""), (YM, """        let bytes = self.slice(index, end)?;
        // SAFETY: The `bytes` must be valid because the `slice()` always takes 4 bytes.
        Ok(u32::from_le_bytes(bytes.try_into().unwrap()))""", """        let bytes = self.slice(index, end)?;
        Ok(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))""")])
refac("find-match", [(YO, """            if cur_key.len() < key.len() {
                left = mid + 1;
            } else if cur_key.len() > key.len() {
                right = mid;
            } else if cur_key < key {
                left = mid + 1;
            } else if cur_key > key {
                right = mid
            } else {
                return Ok(Some(value_pos));
            }""", """            match crate::util::cmp_key(cur_key, key) {
                std::cmp::Ordering::Less => left = mid + 1,
                std::cmp::Ordering::Greater => right = mid,
                std::cmp::Ordering::Equal => return Ok(Some(value_pos)),
            }""")])
refac("find-closed", [(YO, """        let mut left = 0;
        let mut right = self.len()?;

        while left < right {
            let mid = left + (right - left) / 2;
            let key_offset_pos = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + mid * KEY_OFFSET_SIZE;
            let key_offset = self.read_key_offset(key_offset_pos)?;
            let (cur_key, value_pos) = self.read_key(key_offset as usize)?;
""", """        let mut left = 0;
        let mut size = self.len()?;
        let mut right = size;

        while size > 0 {
            let mid = left + size / 2;
            let (cur_key, value_pos) = unsafe { self.read_nth_key_and_value_pos(mid)? };
"""), (YO, """                return Ok(Some(value_pos));
            }
        }
        Ok(None)
    }

    #[inline]
    fn check_key""", """                return Ok(Some(value_pos));
            }
            size = right - left;
        }
        Ok(None)
    }

    #[inline]
    fn check_key""")])
refac("find-loop", [(YO, """        let mut left = 0;
        let mut right = self.len()?;

        while left < right {
            let mid = left + (right - left) / 2;
""", """        let (mut left, mut right) = (0usize, self.len()?);

        loop {
            if left >= right {
                break;
            }
            let mid = (left + right) >> 1;
"""), (YO, """            } else if cur_key < key {
                left = mid + 1;
            } else if cur_key > key {
                right = mid
            } else {
                return Ok(Some(value_pos));
            }""", """            } else if cur_key == key {
                return Ok(Some(value_pos));
            } else if cur_key < key {
                left = mid + 1;
            } else {
                right = mid;
            }""")])
refac("entry-pos-helper", [(YA, "\n        let value_entry_pos = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + index * VALUE_ENTRY_SIZE;", "\n        let value_entry_pos = Self::entry_pos(index);"), (YA, """    #[inline]
    fn check_index(""", """    #[inline]
    fn entry_pos(index: usize) -> usize {
        index * VALUE_ENTRY_SIZE + (DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE)
    }

    #[inline]
    fn check_index(""")])
refac("typed-entry", [(YA, """        self.check_index(index)?;
        let value_entry_pos = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + index * VALUE_ENTRY_SIZE;
        self.0.check_type(value_entry_pos, DataType::Number)?;
        self.read_number(value_entry_pos)""", """        self.typed_entry(index, DataType::Number).and_then(|pos| self.read_number(pos))"""), (YA, """    #[inline]
    fn check_index(""", """    fn typed_entry(&self, index: usize, data_type: DataType) -> YasonResult<usize> {
        self.check_index(index)?;
        let value_entry_pos = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + index * VALUE_ENTRY_SIZE;
        self.0.check_type(value_entry_pos, data_type)?;
        Ok(value_entry_pos)
    }

    #[inline]
    fn check_index(""")])
refac("nested-helper", [(YO, """        let size = self.read_size(value_pos)? as usize + DATA_TYPE_SIZE + OBJECT_SIZE;
        let yason = unsafe { Yason::new_unchecked(self.0.slice(value_pos, value_pos + size)?) };
        Ok(unsafe { Object::new_unchecked(yason) })""", """        let yason = self.nested(value_pos)?;
        Ok(unsafe { Object::new_unchecked(yason) })"""), (YO, """        let size = self.read_size(value_pos)? as usize + DATA_TYPE_SIZE + ARRAY_SIZE;
        let yason = unsafe { Yason::new_unchecked(self.0.slice(value_pos, value_pos + size)?) };
        Ok(unsafe { Array::new_unchecked(yason) })""", """        let yason = self.nested(value_pos)?;
        Ok(unsafe { Array::new_unchecked(yason) })"""), (YO, """    #[inline]
    fn read_key_offset""", """    fn nested(&self, pos: usize) -> YasonResult<&'a Yason> {
        let body = match self.read_size(pos) {
            Ok(size) => size as usize,
            Err(e) => return Err(e),
        };
        let end = pos + DATA_TYPE_SIZE + ARRAY_SIZE + body;
        self.0.slice(pos, end).map(|b| unsafe { Yason::new_unchecked(b) })
    }

    #[inline]
    fn read_key_offset""")])
refac("get-map", [(YO, """        let found = self.find_key(key.as_ref())?;
        if let Some(value_pos) = found {
            return Ok(Some(self.read_value(value_pos)?));
        }

        Ok(None)""", """        self.find_key(key.as_ref())?.map(|value_pos| self.read_value(value_pos)).transpose()""")])
refac("get-match", [(YO, """        let found = self.check_key(key.as_ref(), DataType::Bool)?;

        if let Some(value_pos) = found {
            return Ok(Some(self.read_bool(value_pos)?));
        }
        Ok(None)""", """        match self.check_key(key.as_ref(), DataType::Bool)? {
            None => Ok(None),
            Some(pos) => self.read_bool(pos).map(Some),
        }""")])
refac("iter-early", [(YA, """        if self.index < self.len {
            let value = self.array.read_value(self.index);
            self.index += 1;
            Some(value)
        } else {
            None
        }""", """        if self.index >= self.len {
            return None;
        }
        let index = self.index;
        self.index = index + 1;
        Some(self.array.read_value(index))""")])
refac("iter-remaining", [(YO, """        if self.inner.index < self.inner.len {
            let key = self.inner.next_key();
            self.inner.index += 1;
            Some(key)
        } else {
            None
        }""", """        if self.inner.len - self.inner.index == 0 {
            return None;
        }
        let key = self.inner.next_key();
        self.inner.index += 1;
        Some(key)""")])
refac("iter-inner-next", [(YO, """        if self.inner.index < self.inner.len {
            let key = self.inner.next_value();
            self.inner.index += 1;
            Some(key)
        } else {
            None
        }""", """        self.inner.next().map(|entry| entry.map(|(_, value)| value))""")])
refac("value-if", [(YA, """        let value = match data_type {
            DataType::Object => Value::Object(self.read_object(value_entry_pos)?),
            DataType::Array => Value::Array(self.read_array(value_entry_pos)?),
            DataType::String => Value::String(self.read_string(value_entry_pos)?),
            DataType::Number => Value::Number(self.read_number(value_entry_pos)?),
            DataType::Bool => Value::Bool(self.read_bool(value_entry_pos)?),
            DataType::Null => Value::Null,
        };
        Ok(value)""", """        match data_type {
            DataType::Null => Ok(Value::Null),
            DataType::Bool => self.read_bool(value_entry_pos).map(Value::Bool),
            DataType::Number => self.read_number(value_entry_pos).map(Value::Number),
            DataType::String => self.read_string(value_entry_pos).map(Value::String),
            DataType::Array => self.read_array(value_entry_pos).map(Value::Array),
            DataType::Object => self.read_object(value_entry_pos).map(Value::Object),
        }""")])
refac("check-type-match", [(YM, """        if !self.is_type(index, expected as u8)? {
            return Err(YasonError::UnexpectedType {
                expected,
                actual: self.read_type(index)?,
            });
        }

        Ok(())""", """        let code = self.get(index)?;
        if code == expected as u8 {
            return Ok(());
        }
        let actual = DataType::try_from(code).map_err(|_| YasonError::InvalidDataType(code))?;
        Err(YasonError::UnexpectedType { expected, actual })""")])
refac("string-split", [(YM, """        let (data_length, data_length_len) = decode_varint(&self.bytes, pos)?;
        let end = pos + data_length_len + data_length as usize;
        let bytes = self.slice(pos + data_length_len, end)?;
        let string = unsafe { std::str::from_utf8_unchecked(bytes) };
        Ok(string)""", """        let (length, used) = decode_varint(&self.bytes, pos)?;
        let start = pos + used;
        self.slice(start, start + length as usize)
            .map(|bytes| unsafe { std::str::from_utf8_unchecked(bytes) })""")])
refac("lazy-in-array", [(YM, """        if IN_ARRAY {
            Array::new_unchecked(self.yason).read_bool(self.value_pos)
        } else {
            self.yason.read_bool(self.value_pos + DATA_TYPE_SIZE)
        }""", """        let pos = self.value_pos + DATA_TYPE_SIZE;
        match IN_ARRAY {
            true => Ok(self.yason.read_u32(pos)? == 1),
            false => self.yason.read_bool(pos),
        }""")])
refac("datatype-arith", [(D, open('/repo/src/data_type.rs').read().split("fn try_from")[1].split("{",1)[1].split("\n    }\n")[0], """
        const TYPES: [DataType; 6] = [DataType::Object, DataType::Array, DataType::String, DataType::Number, DataType::Bool, DataType::Null];
        if value == 0 || value > 6 {
            return Err(DataTypeError(value));
        }
        Ok(TYPES[value as usize - 1])""")])
