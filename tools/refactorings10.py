"""Refactorings of the selector, of the query and of the builders."""
import re
Q = "src/path/query.rs"
PM = "src/path/mod.rs"
A = "src/builder/array.rs"
O = "src/builder/object.rs"
U = "src/util.rs"
QS = open("/repo/" + Q).read()
new = re.sub(r"let found = (self\.query_internal\([^;]*\)\?);\n(\s*)if self\.for_exists && found \{", r"if \1 && self.for_exists {", QS)
refac("k-found-first", [(Q, QS, new)])
refac("k-let-else", [(Q, '''                let val = object.lazy_get(key)?;
                if let Some(v) = val {
                    return self.query_internal(v, step_index + 1);
                }
''', '''                let v = match object.lazy_get(key)? {
                    Some(v) => v,
                    None => return Ok(false),
                };
                return self.query_internal(v, step_index + 1);
''')])
refac("k-index-iflet", [(Q, '''        match value.data_type() {
            DataType::Array => {
                let array = unsafe { value.array()? };
                if index < array.len()? {
                    let val = unsafe { array.lazy_get_unchecked(index)? };
                    return self.query_internal(val, step_index + 1);
                }
            }
            _ => {
                if index == 0 {
                    return self.query_internal(value, step_index + 1);
                }
            }
        }
        Ok(false)''', '''        if value.data_type() != DataType::Array {
            return if index == 0 {
                self.query_internal(value, step_index + 1)
            } else {
                Ok(false)
            };
        }
        let array = unsafe { value.array()? };
        if index >= array.len()? {
            return Ok(false);
        }
        let val = unsafe { array.lazy_get_unchecked(index)? };
        self.query_internal(val, step_index + 1)''')])
refac("k-last-checked", [(Q, '''                let len = array.len()?;
                if minus < len {
                    let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                    return self.query_internal(val, step_index + 1);
                }
''', '''                if let Some(index) = array.len()?.checked_sub(minus + 1) {
                    let val = unsafe { array.lazy_get_unchecked(index)? };
                    return self.query_internal(val, step_index + 1);
                }
''')])
refac("k-range-while", [(Q, '''                if let Some((b, e)) = find_range(begin, end, len) {
                    for i in b..e + 1 {
                        let val = unsafe { array.lazy_get_unchecked(i)? };
                        let found = self.query_internal(val, step_index + 1)?;
                        if self.for_exists && found {
                            return Ok(true);
                        }
                    }
                }
            }
            _ => {
                if find_range''', '''                if let Some((b, e)) = find_range(begin, end, len) {
                    let mut i = b;
                    while i <= e {
                        let val = unsafe { array.lazy_get_unchecked(i)? };
                        if self.query_internal(val, step_index + 1)? && self.for_exists {
                            return Ok(true);
                        }
                        i += 1;
                    }
                }
            }
            _ => {
                if find_range''')])
refac("k-query-split", [(PM, '''        if !with_wrapper {
            debug_assert!(query_buf.as_ref().len() <= 1);
            return match query_buf.as_mut().pop() {
                None => Ok(QueriedValue::None),
                Some(val) => Ok(QueriedValue::Value(val)),
            };
        }
''', '''        if !with_wrapper {
            return Ok(query_buf.as_mut().pop().map_or(QueriedValue::None, QueriedValue::Value));
        }
''')])
refac("k-method-last", [(PM, "        let len = self.0.len();\n        if len <= 1 {\n            return false;\n        }\n        matches!(self.steps()[len - 1], Step::Func(_))", "        match self.steps() {\n            [_, .., last] => matches!(last, Step::Func(_)),\n            _ => false,\n        }")])
GATE = "        if self.current_depth != self.total_nested_depth.depth() {\n            return Err(BuildError::InnerUncompletedError);\n        }\n"
AS = open("/repo/" + A).read()
refac("k-active-helper", [(A, AS, AS.replace(GATE, "        self.check_active()?;\n").replace("    #[inline]\n    fn finish(&mut self)", "    #[inline]\n    fn check_active(&self) -> BuildResult<()> {\n        if self.current_depth == self.total_nested_depth.depth() {\n            Ok(())\n        } else {\n            Err(BuildError::InnerUncompletedError)\n        }\n    }\n\n    #[inline]\n    fn finish(&mut self)", 1))])
refac("k-null-zero", [(A, "        self.push_value(DataType::Null, |_, _, _| Ok(()))", "        self.push_value(DataType::Null, |bytes, _, value_entry_pos| {\n            bytes.write_offset(0, value_entry_pos + DATA_TYPE_SIZE);\n            Ok(())\n        })")])
refac("k-null-offset", [(A, "        self.push_value(DataType::Null, |_, _, _| Ok(()))", "        self.push_value(DataType::Null, |bytes, offset, value_entry_pos| {\n            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);\n            Ok(())\n        })")])
refac("k-finish-depth-last", [(O, '''        let bytes = self.bytes.as_mut();
        let total_size = checked_size(bytes.len() - self.start_pos)?;
        bytes.write_total_size(total_size, self.start_pos - OBJECT_SIZE);

        self.total_nested_depth.decrease();
''', '''        let start = self.start_pos;
        let bytes = self.bytes.as_mut();
        let total_size = checked_size(bytes.len() - start)?;
        self.total_nested_depth.decrease();
        bytes.write_total_size(total_size, start - OBJECT_SIZE);
''')])

# zeroing the tables by an iterator or a loop
VE = "src/vec.rs"
TBL = """        let new_len = self.len() + element_count * %s;
        debug_assert!(new_len <= self.capacity());
        self.resize(new_len, 0);"""
refac("zero-iter", [(VE, TBL % "KEY_OFFSET_SIZE", "        self.extend(std::iter::repeat(0u8).take(element_count * KEY_OFFSET_SIZE));")])
refac("zero-loop", [(VE, TBL % "VALUE_ENTRY_SIZE", """        for _ in 0..element_count {
            self.extend_from_slice(&[0u8; VALUE_ENTRY_SIZE]);
        }""")])
refac("zero-push", [(VE, TBL % "VALUE_ENTRY_SIZE", """        for _ in 0..element_count * VALUE_ENTRY_SIZE {
            self.push(0);
        }""")])
