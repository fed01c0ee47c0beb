V="src/vec.rs"; U="src/util.rs"; A="src/builder/array.rs"; O="src/builder/object.rs"; M="src/builder/mod.rs"; S="src/builder/scalar.rs"
YA="src/yason/array.rs"; YO="src/yason/object.rs"; YM="src/yason/mod.rs"
refac("enc-loop", [(U, open('/repo/src/util.rs').read().split("    const SHIFT")[1].split("    buf.push_bytes(bytes);")[0] and ("    const SHIFT"+open('/repo/src/util.rs').read().split("    const SHIFT")[1].split("    buf.push_bytes(bytes);")[0]+"    buf.push_bytes(bytes);"), """    let mut bytes = [0u8; 4];
    let mut len = 0;
    loop {
        let b = (value & 0x7f) as u8;
        value >>= 7;
        if value == 0 {
            bytes[len] = b;
            len += 1;
            break;
        }
        bytes[len] = b | 0x80;
        len += 1;
    }
    buf.push_bytes(&bytes[..len]);""")])
refac("enc-push-loop", [(U, "    const SHIFT"+open('/repo/src/util.rs').read().split("    const SHIFT")[1].split("    buf.push_bytes(bytes);")[0]+"    buf.push_bytes(bytes);", """    while value >= 0x80 {
        buf.push_u8((value & 0x7f) as u8 | 0x80);
        value >>= 7;
    }
    buf.push_u8(value as u8);"""), (U, """    if value < 0x80 {
        buf.push_u8(value as u8);
        return;
    }

""", "")])
refac("dec-while", [(U, """    let mut data_length: u32 = 0;
    for i in 0..MAX_DATA_LENGTH_SIZE {
        // Get the next 7 bits of the length.
        let byte = buf.get(index + i).map_or_else(
            || {
                Err(YasonError::IndexOutOfBounds {
                    len: buf.len(),
                    index: index + i,
                })
            },
            |v| Ok(*v),
        )?;
        data_length |= (byte as u32 & 0x7f) << (7 * i);
        if (byte & 0x80) == 0 {
            // This was the last byte. Return successfully.
            return Ok((data_length, i + 1));
        }
    }
""", """    let mut data_length: u32 = 0;
    let mut shift = 0u32;
    let mut used = 0usize;
    while used < MAX_DATA_LENGTH_SIZE {
        let pos = index + used;
        let byte = match buf.get(pos) {
            Some(b) => *b,
            None => return Err(YasonError::IndexOutOfBounds { len: buf.len(), index: pos }),
        };
        data_length |= ((byte & 0x7f) as u32) << shift;
        shift += 7;
        used += 1;
        if byte < 0x80 {
            return Ok((data_length, used));
        }
    }
""")])
refac("cmp-then", [(U, """    match left.len().cmp(&right.len()) {
        Ordering::Equal => left.cmp(right),
        Ordering::Greater => Ordering::Greater,
        Ordering::Less => Ordering::Less,
    }""", "    left.len().cmp(&right.len()).then_with(|| left.cmp(right))")])
refac("cmp-bytes", [(U, """    match left.len().cmp(&right.len()) {
        Ordering::Equal => left.cmp(right),
        Ordering::Greater => Ordering::Greater,
        Ordering::Less => Ordering::Less,
    }""", """    let by_len = left.len().cmp(&right.len());
    if by_len != Ordering::Equal {
        return by_len;
    }
    left.as_bytes().cmp(right.as_bytes())""")])
refac("bs-unwrap", [(O, """        match found {
            Ok(v) => v,
            Err(v) => v,
        }""", "        found.unwrap_or_else(|v| v)")])
refac("bs-hand", [(O, """        // The key offsets are not necessarily aligned, so they cannot be accessed as `[u32]`.
        let key_offsets_bytes = bytes[begin..end].as_ptr() as *const [u8; KEY_OFFSET_SIZE];
        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };

        let found = key_offsets.binary_search_by(|key_offset| {
            let key = Self::read_key_by_offset(bytes, u32::from_le_bytes(*key_offset) as usize, start_pos);
            cmp_key(key, target)
        });

        match found {
            Ok(v) => v,
            Err(v) => v,
        }""", """        let table = &bytes[begin..end];
        let (mut left, mut right) = (0, value_count);
        while left < right {
            let mid = (left + right) / 2;
            let at = mid * KEY_OFFSET_SIZE;
            let offset = u32::from_le_bytes(table[at..at + KEY_OFFSET_SIZE].try_into().unwrap()) as usize;
            let key = Self::read_key_by_offset(bytes, offset, start_pos);
            match cmp_key(key, target) {
                std::cmp::Ordering::Less => left = mid + 1,
                std::cmp::Ordering::Greater => right = mid,
                std::cmp::Ordering::Equal => return mid,
            }
        }
        left""")])
refac("copy-within", [(O, """                let src = bytes[offset_pos..offset_pos + count].as_mut_ptr();
                let dst = unsafe { src.add(KEY_OFFSET_SIZE) };

                unsafe { ptr::copy(src, dst, count) }
""", """                bytes.copy_within(offset_pos..offset_pos + count, offset_pos + KEY_OFFSET_SIZE);
"""), (O, "use std::ptr;\n", "")])
refac("gate-helper", [(A, """        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if self.value_count >= self.element_count {""", """        self.check_inner()?;
        if self.value_count >= self.element_count {"""), (A, """        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if self.value_count != self.element_count {""", """        self.check_inner()?;
        if self.value_count != self.element_count {"""), (A, """    #[inline]
    fn finish(&mut self) -> BuildResult<usize> {""", """    fn check_inner(&self) -> BuildResult<()> {
        match self.current_depth == self.total_nested_depth.depth() {
            true => Ok(()),
            false => Err(BuildError::InnerUncompletedError),
        }
    }

    #[inline]
    fn finish(&mut self) -> BuildResult<usize> {""")])
refac("obj-gate-helper", [(O, """        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if self.value_count >= self.element_count {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.value_count.saturating_add(1),
            });
        }

        if key.len() > MAX_KEY_SIZE {
            return Err(BuildError::KeyTooLong(key.len()));
        }

""", """        self.check_push(key)?;

"""), (O, """    #[inline]
    fn finish(&mut self) -> BuildResult<usize> {""", """    fn check_push(&self, key: &str) -> BuildResult<()> {
        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if self.value_count >= self.element_count {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.value_count.saturating_add(1),
            });
        }

        if key.len() > MAX_KEY_SIZE {
            return Err(BuildError::KeyTooLong(key.len()));
        }
        Ok(())
    }

    #[inline]
    fn finish(&mut self) -> BuildResult<usize> {""")])
refac("finish-less", [(A, """    fn finish(&mut self) -> BuildResult<usize> {
        if self.current_depth != self""", """    fn finish(&mut self) -> BuildResult<usize> {
        if self.current_depth < self""")])
refac("finish-order", [(O, """        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if self.value_count != self.element_count {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.value_count,
            });
        }

        let bytes = self.bytes.as_mut();
        let total_size""", """        let done = self.value_count == self.element_count;
        if self.current_depth != self.total_nested_depth.depth() {
            return Err(BuildError::InnerUncompletedError);
        }
        if !done {
            let (expected, actual) = (self.element_count, self.value_count);
            return Err(BuildError::InconsistentElementCount { expected, actual });
        }

        let bytes = self.bytes.as_mut();
        let total_size""")])
refac("num-stack", [(V, """        let length_pos = self.len();
        let value_pos = length_pos + NUMBER_LENGTH_SIZE;
        let new_len = value_pos + MAX_BINARY_SIZE;
        debug_assert!(NUMBER_LENGTH_SIZE + MAX_BINARY_SIZE <= self.capacity() - self.len());
        self.resize(new_len, 0);
        let bytes = &mut self[value_pos..value_pos + MAX_BINARY_SIZE];
        // The memory is sufficient for any number, so the encoding cannot fail.
        let size = value.compact_encode(bytes).expect("failed to encode number");
        self[length_pos] = size as u8;
        self.truncate(value_pos + size);""", """        let mut buf = [0u8; MAX_BINARY_SIZE];
        let size = value.compact_encode(&mut buf[..]).expect("failed to encode number");
        self.push_u8(size as u8);
        self.push_bytes(&buf[..size]);""")])
refac("zero-fill", [(V, """        let new_len = self.len() + OBJECT_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", "        zero_fill(self, OBJECT_SIZE);"), (V, """        let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", "        zero_fill(self, element_count * KEY_OFFSET_SIZE);"), (V, """        let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", "        zero_fill(self, element_count * VALUE_ENTRY_SIZE);"), (V, "impl VecExt for Vec<u8> {", """fn zero_fill(v: &mut Vec<u8>, count: usize) {
    let new_len = v.len() + count;
    debug_assert!(new_len <= v.capacity());
    v.resize(new_len, 0);
}

impl VecExt for Vec<u8> {""")])
refac("zero-extend", [(V, """        let new_len = self.len() + OBJECT_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", "        self.extend_from_slice(&[0u8; OBJECT_SIZE]);"), (V, """        let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", "        self.extend(std::iter::repeat(0u8).take(element_count * KEY_OFFSET_SIZE));"), (V, """        let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);""", """        for _ in 0..element_count {
            self.extend_from_slice(&[0u8; VALUE_ENTRY_SIZE]);
        }""")])
refac("overwrite", [(V, """        let s = &mut self[size_pos..size_pos + OBJECT_SIZE];
        s.copy_from_slice(&size.to_le_bytes());""", "        overwrite(self, size_pos, &size.to_le_bytes());"), (V, """        let s = &mut self[offset_pos..offset_pos + KEY_OFFSET_SIZE];
        s.copy_from_slice(&offset.to_le_bytes());""", "        overwrite(self, offset_pos, &offset.to_le_bytes());"), (V, "impl VecExt for Vec<u8> {", """fn overwrite(v: &mut [u8], pos: usize, bytes: &[u8]) {
    v[pos..pos + bytes.len()].copy_from_slice(bytes);
}

impl VecExt for Vec<u8> {""")])
refac("write-bytes-loop", [(V, """        let s = &mut self[offset_pos..offset_pos + KEY_OFFSET_SIZE];
        s.copy_from_slice(&offset.to_le_bytes());""", """        for (i, b) in offset.to_le_bytes().iter().enumerate() {
            self[offset_pos + i] = *b;
        }""")])
refac("depth-ref", [(M, """        match self {
            Depth::Borrowed(d) => **d += 1,
            Depth::Owned(d) => *d += 1,
        }""", """        *self.get_mut() += 1;"""), (M, """        match self {
            Depth::Borrowed(d) => **d -= 1,
            Depth::Owned(d) => *d -= 1,
        }""", """        *self.get_mut() -= 1;"""), (M, """    #[inline]
    fn increase(&mut self) {""", """    #[inline]
    fn get_mut(&mut self) -> &mut usize {
        match self {
            Depth::Owned(d) => d,
            Depth::Borrowed(d) => d,
        }
    }

    #[inline]
    fn increase(&mut self) {"""), (M, """        match self {
            Depth::Owned(d) => Depth::Borrowed(d),
            Depth::Borrowed(d) => Depth::Borrowed(*d),
        }""", "        Depth::Borrowed(self.get_mut())")])
refac("arr-value-helper", [(A, """    #[inline]
    fn push_string(&mut self, value: &str) -> BuildResult<()> {
        let size = MAX_DATA_LENGTH_SIZE + value.len();
        let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
            bytes.try_reserve(size)?;
            bytes.push_string(value)?;
            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
            Ok(())
        };
        self.push_value(DataType::String, f)
    }""", """    fn push_out_of_line<F>(&mut self, data_type: DataType, size: usize, encode: F) -> BuildResult<()>
    where
        F: FnOnce(&mut Vec<u8>) -> BuildResult<()>,
    {
        self.push_value(data_type, |bytes, offset, value_entry_pos| {
            bytes.try_reserve(size)?;
            encode(bytes)?;
            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
            Ok(())
        })
    }

    #[inline]
    fn push_string(&mut self, value: &str) -> BuildResult<()> {
        self.push_out_of_line(DataType::String, MAX_DATA_LENGTH_SIZE + value.len(), |bytes| bytes.push_string(value))
    }""")])
refac("arr-pos-computed", [(A, """        self.value_entry_pos += VALUE_ENTRY_SIZE;
        self.value_count += 1;
        Ok(())""", """        self.value_count += 1;
        self.value_entry_pos = self.start_pos + ELEMENT_COUNT_SIZE + self.value_count as usize * VALUE_ENTRY_SIZE;
        Ok(())""")])
refac("arr-no-entrypos", [(A, "    value_entry_pos: usize,\n    value_count", "    value_count"), (A, "            value_entry_pos,\n            value_count", "            value_count"), (A, "        let value_entry_pos = bs.len();\n", ""),
 (A, """        // The value entry is left untouched if the value cannot be pushed.
        f(bytes, offset, self.value_entry_pos)?;
        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);

        self.value_entry_pos += VALUE_ENTRY_SIZE;
""", """        let entry_pos = self.start_pos + ELEMENT_COUNT_SIZE + self.value_count as usize * VALUE_ENTRY_SIZE;
        // The value entry is left untouched if the value cannot be pushed.
        f(bytes, offset, entry_pos)?;
        bytes.write_data_type_by_pos(data_type, entry_pos);

""")])
refac("obj-count-left", [(O, "    value_count: u16,\n    bytes_init", "    remaining: u16,\n    bytes_init"), (O, "            value_count: 0,", "            remaining: element_count,"),
 (O, """        if self.value_count != self.element_count {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.value_count,
            });""", """        if self.remaining != 0 {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.element_count - self.remaining,
            });"""),
 (O, """        if self.value_count >= self.element_count {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.value_count.saturating_add(1),
            });""", """        if self.remaining == 0 {
            return Err(BuildError::InconsistentElementCount {
                expected: self.element_count,
                actual: self.element_count.saturating_add(1),
            });"""),
 (O, """        if !self.key_sorted {
            let pos = Self::binary_search(key, bytes, self.start_pos, self.value_count as usize);""", """        let value_count = (self.element_count - self.remaining) as usize;
        if !self.key_sorted {
            let pos = Self::binary_search(key, bytes, self.start_pos, value_count);"""),
 (O, "            if pos < self.value_count as usize {\n                let count = (self.value_count as usize - pos)", "            if pos < value_count {\n                let count = (value_count - pos)"),
 (O, "        self.value_count += 1;", "        self.remaining -= 1;")])
refac("scalar-helper", [(S, """        let init_len = bytes.len();
        let size = DATA_TYPE_SIZE + BOOL_SIZE;
        bytes.try_reserve(size)?;
        bytes.push_data_type(DataType::Bool);
        bytes.push_u8(value as u8);
        Ok(unsafe { Yason::new_unchecked(&bytes[init_len..]) })""", """        let start = begin(bytes, DataType::Bool, BOOL_SIZE)?;
        bytes.push_u8(if value { 1 } else { 0 });
        Ok(unsafe { Yason::new_unchecked(&bytes[start..]) })"""), (S, "impl Scalar {", """fn begin(bytes: &mut Vec<u8>, data_type: DataType, size: usize) -> BuildResult<usize> {
    let start = bytes.len();
    bytes.try_reserve(size + DATA_TYPE_SIZE)?;
    bytes.push_data_type(data_type);
    Ok(start)
}

impl Scalar {""")])
