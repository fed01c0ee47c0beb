# Edits of the query code that keep its behaviour.
QF = "src/path/query.rs"
PM = "src/path/mod.rs"
refac("q-helper-elements", [(QF, '''                let object = unsafe { value.object()? };
                let val = object.lazy_get(key)?;
                if let Some(v) = val {
                    return self.query_internal(v, step_index + 1);
                }
            }
            DataType::Array => {
                let array = unsafe { value.array()? };
                for val in array.lazy_iter()? {
                    let found = self.query_internal(val?, step_index)?;
                    if self.for_exists && found {
                        return Ok(true);
                    }
                }
            }''', '''                let object = unsafe { value.object()? };
                return match object.lazy_get(key)? {
                    Some(v) => self.query_internal(v, step_index + 1),
                    None => Ok(false),
                };
            }
            DataType::Array => return self.each_element(value, step_index),'''),
  (QF, '''    #[inline]
    fn object_wildcard_match''', '''    fn each_element<const IN_ARRAY: bool>(&mut self, value: LazyValue<'a, IN_ARRAY>, step_index: usize) -> YasonResult<bool> {
        let array = unsafe { value.array()? };
        let n = array.len()?;
        let mut i = 0;
        while i < n {
            let val = unsafe { array.lazy_get_unchecked(i)? };
            if self.query_internal(val, step_index)? && self.for_exists {
                return Ok(true);
            }
            i += 1;
        }
        Ok(false)
    }

    #[inline]
    fn object_wildcard_match''')])
refac("q-range-rewrite", [(QF, '''        let b = u1.min(u2);
        let e = u1.max(u2).min(len - 1);
        if b > e {
            return None;
        }
        Some((b, e))''', '''        let (b, e) = if u1 <= u2 { (u1, u2) } else { (u2, u1) };
        if b >= len {
            return None;
        }
        if e >= len {
            return Some((b, len - 1));
        }
        Some((b, e))''')])
refac("q-range-incl", [(QF, '''                    for i in b..e + 1 {
                        let val = unsafe { array.lazy_get_unchecked(i)? };
                        let found = self.query_internal(val, step_index + 1)?;
                        if self.for_exists && found {
                            return Ok(true);
                        }
                    }''', '''                    let mut pos = b;
                    loop {
                        let val = unsafe { array.lazy_get_unchecked(pos)? };
                        let found = self.query_internal(val, step_index + 1)?;
                        if found && self.for_exists {
                            return Ok(true);
                        }
                        if pos == e {
                            break;
                        }
                        pos += 1;
                    }''')])
refac("q-range-inclusive-iter", [(QF, '''                    for i in b..e + 1 {
                        let val = unsafe { array.lazy_get_unchecked(i)? };
                        let found = self.query_internal(val, step_index + 1)?;
                        if self.for_exists && found {
                            return Ok(true);
                        }
                    }''', '''                    for pos in b..=e {
                        let val = unsafe { array.lazy_get_unchecked(pos)? };
                        let found = self.query_internal(val, step_index + 1)?;
                        if found && self.for_exists {
                            return Ok(true);
                        }
                    }''')])
refac("q-multi-for", [(QF, '''                let mut arr_steps_index = 0;
                while arr_steps_index < arr_steps.len() {
                    let cur_step = &arr_steps[arr_steps_index];
                    let len = array.len()?;
''', '''                let len = array.len()?;
                for cur_step in arr_steps.iter() {
'''), (QF, '''                    arr_steps_index += 1;
''', '')])
refac("q-relaxed-any", [(QF, '''                if non_array_relaxed_match(arr_steps) {''', '''                let hit = arr_steps.iter().any(|s| non_array_relaxed_match(std::slice::from_ref(s)));
                if hit {''')])
refac("q-outer-match", [(PM, '''        if query_buf.as_ref().is_empty() {
            return Ok(QueriedValue::None);
        }
''', '''        let selected = query_buf.as_ref().len();
        if selected == 0 {
            return Ok(QueriedValue::None);
        }
''')])
refac("q-has-method", [(PM, '''        let len = self.0.len();
        if len <= 1 {
            return false;
        }
        matches!(self.steps()[len - 1], Step::Func(_))''', '''        match self.0.last() {
            Some(Step::Func(_)) => self.0.len() > 1,
            _ => false,
        }''')])
refac("q-push-inline", [(QF, '''                push_value(self.query_buf, value.value()?)?;
            }
            return Ok(true);''', '''                let selected = value.value()?;
                push_value(self.query_buf, selected)?;
                return Ok(true);
            }
            return Ok(true);''')])
refac("q-values-for-index", [(PM, '''    for value in values {
        match value {''', '''    for i in 0..values.len() {
        let value = &values[i];
        match value {''')])
refac("q-type-match", [(QF, '''                let data_type = value.data_type();
                Value::String(data_type.name())''', '''                Value::String(match value.data_type() {
                    DataType::Object => "object",
                    DataType::Array => "array",
                    other => other.name(),
                })''')])
