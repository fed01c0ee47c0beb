refac("eq-index", [("src/yason/array.rs", "        for (l_value, r_value) in self.lazy_iter()?.zip(other.lazy_iter()?) {\n            let res = l_value?.equals(r_value?)?;\n            if !res {\n                return Ok(false);\n            }\n        }\n\n        Ok(true)", "        let n = self.len()?;\n        let mut i = 0;\n        while i < n {\n            let (l, r) = unsafe { (self.lazy_get_unchecked(i)?, other.lazy_get_unchecked(i)?) };\n            if !l.equals(r)? {\n                return Ok(false);\n            }\n            i += 1;\n        }\n\n        Ok(true)")])
refac("eq-helper", [("src/yason/object.rs", "            if l_key != r_key {\n                return Ok(false);\n            }\n            let res = l_value.equals(r_value)?;\n            if !res {\n                return Ok(false);\n            }\n        }\n\n        Ok(true)", "            if !same_member(l_key, r_key, l_value, r_value)? {\n                return Ok(false);\n            }\n        }\n\n        Ok(true)"), ("src/yason/object.rs", "impl<'a> Object<'a> {\n    #[inline]\n    fn skip_key", "#[inline]\nfn same_member(l: &str, r: &str, a: LazyValue<false>, b: LazyValue<false>) -> YasonResult<bool> {\n    Ok(l == r && a.equals(b)?)\n}\n\nimpl<'a> Object<'a> {\n    #[inline]\n    fn skip_key")])
refac("eq-manual-zip", [("src/yason/array.rs", "        for (l_value, r_value) in self.lazy_iter()?.zip(other.lazy_iter()?) {\n            let res = l_value?.equals(r_value?)?;\n            if !res {\n                return Ok(false);\n            }\n        }\n\n        Ok(true)", "        let mut right = other.lazy_iter()?;\n        for l_value in self.lazy_iter()? {\n            match Iterator::next(&mut right) {\n                Some(r_value) => {\n                    if !l_value?.equals(r_value?)? {\n                        return Ok(false);\n                    }\n                }\n                None => break,\n            }\n        }\n\n        Ok(true)")])
refac("eq-match", [("src/yason/mod.rs", "        if self.data_type() != other.data_type() {\n            return Ok(false);\n        }\n\n        match self.data_type() {\n            DataType::Object =>", "        let ty = other.data_type();\n        if ty != self.data_type() {\n            return Ok(false);\n        }\n\n        match ty {\n            DataType::Object =>"), ("src/yason/mod.rs", "            DataType::Bool => unsafe { Ok(self.bool()?.eq(&other.bool()?)) },\n            DataType::Null => Ok(true),", "            DataType::Bool => {\n                let (a, b) = unsafe { (self.bool()?, other.bool()?) };\n                Ok(!(a ^ b))\n            }\n            DataType::Null => Ok(true),")])
refac("eq-all", [("src/yason/array.rs", "        for (l_value, r_value) in self.lazy_iter()?.zip(other.lazy_iter()?) {\n            let res = l_value?.equals(r_value?)?;\n            if !res {\n                return Ok(false);\n            }\n        }\n\n        Ok(true)", "        let mut pairs = self.lazy_iter()?.zip(other.lazy_iter()?);\n        loop {\n            let (l, r) = match pairs.next() {\n                None => return Ok(true),\n                Some(p) => p,\n            };\n            if !l?.equals(r?)? {\n                break;\n            }\n        }\n        Ok(false)\n    }\n    fn _x() {\n        {\n        }")])
M = "src/format/mod.rs"
P = "src/format/pretty.rs"
refac("f-while-bytes", [(M, "    for (i, &byte) in bytes.iter().enumerate() {\n        let escape = ESCAPE[byte as usize];\n        if escape == __ {\n            continue;\n        }\n\n        if start < i {\n            writer.write_bytes(&bytes[start..i])?;\n        }\n        writer.write_bytes(escape)?;\n        start = i + 1;\n    }", "    let mut i = 0;\n    while i < bytes.len() {\n        let escape = ESCAPE[bytes[i] as usize];\n        if !escape.is_empty() {\n            if i > start {\n                writer.write_bytes(&bytes[start..i])?;\n            }\n            writer.write_bytes(escape)?;\n            start = i + 1;\n        }\n        i += 1;\n    }")])
refac("f-for-range", [(M, "    for (i, &byte) in bytes.iter().enumerate() {\n        let escape = ESCAPE[byte as usize];", "    for i in 0..bytes.len() {\n        let escape = ESCAPE[bytes[i] as usize];")])
refac("f-loop-flag", [(M, "        let mut iter = value.lazy_iter()?;\n        if let Some(val) = iter.next() {\n            self.write_array_value(&val?, true, writer)?;\n        }\n        for val in iter {\n            self.write_array_value(&val?, false, writer)?;\n        }", "        let mut first = true;\n        for val in value.lazy_iter()? {\n            self.write_array_value(&val?, first, writer)?;\n            first = false;\n        }")])
refac("f-object-enumerate", [(M, "        let mut iter = value.lazy_iter()?;\n        if let Some(entry) = iter.next() {\n            let (key, value) = entry?;\n            self.write_object_value(key, &value, true, writer)?;\n        }\n        for entry in iter {\n            let (key, value) = entry?;\n            self.write_object_value(key, &value, false, writer)?;\n        }", "        for (i, entry) in value.lazy_iter()?.enumerate() {\n            let (key, value) = entry?;\n            self.write_object_value(key, &value, i == 0, writer)?;\n        }")])
refac("f-values-index", [(M, "        self.write_value(&values[0], true, writer)?;\n\n        for val in values.iter().skip(1) {\n            self.write_value(val, false, writer)?;\n        }", "        for (i, val) in values.iter().enumerate() {\n            self.write_value(val, i == 0, writer)?;\n        }")])
refac("f-values-split", [(M, "        self.write_value(&values[0], true, writer)?;\n\n        for val in values.iter().skip(1) {\n            self.write_value(val, false, writer)?;\n        }", "        self.write_value(&values[0], true, writer)?;\n\n        for val in &values[1..] {\n            self.write_value(val, false, writer)?;\n        }")])
refac("f-indent-for", [(P, "    let mut remain = level * indent;\n    while remain > SPACE_BUF.len() {\n        writer.write_bytes(&SPACE_BUF)?;\n        remain -= SPACE_BUF.len();\n    }\n    writer.write_bytes(&SPACE_BUF[..remain])?;\n    Ok(())", "    for _ in 0..level * indent {\n        writer.write_bytes(b\" \")?;\n    }\n    let _ = SPACE_BUF;\n    Ok(())")])
refac("f-separator", [(P, "    fn begin_array_value<W: fmt::Write>(&mut self, first: bool, writer: &mut W) -> FormatResult<()> {\n        if first {\n            writer.write_bytes(b\"\\n\")?;\n        } else {\n            writer.write_bytes(b\",\\n\")?;\n        }\n", "    fn begin_array_value<W: fmt::Write>(&mut self, first: bool, writer: &mut W) -> FormatResult<()> {\n        if !first {\n            writer.write_char(',')?;\n        }\n        writer.write_char('\\n')?;\n")])
refac("f-write-str", [(M, "    fn write_null<W: fmt::Write>(&mut self, writer: &mut W) -> FormatResult<()> {\n        writer.write_bytes(b\"null\")?;\n        Ok(())", "    fn write_null<W: fmt::Write>(&mut self, writer: &mut W) -> FormatResult<()> {\n        Ok(writer.write_str(\"null\")?)")])
refac("f-bool-if", [(M, "        let s = if value { \"true\" } else { \"false\" };\n        writer.write_bytes(s.as_bytes())?;\n        Ok(())", "        match value {\n            true => writer.write_bytes(b\"true\")?,\n            false => writer.write_bytes(b\"false\")?,\n        }\n        Ok(())")])
refac("f-lazy-helper", [(M, "        if self.pretty {\n            let mut fmt = PrettyFormatter::new();\n            fmt.format(self.yason, f).map_err(|_| fmt::Error)\n        } else {\n            let mut fmt = CompactFormatter::new();\n            fmt.format(self.yason, f).map_err(|_| fmt::Error)\n        }", "        self.yason.format_to(self.pretty, f).map_err(|_| fmt::Error)")])
refac("f-string-inline", [(M, "        self.begin_string(writer)?;\n        format_escaped_str(value, writer)?;\n        self.end_string(writer)\n", "        writer.write_char('\"')?;\n        format_escaped_str(value, writer)?;\n        writer.write_char('\"')?;\n        Ok(())\n")])
refac("f-escape-fn", [(M, "        let escape = ESCAPE[byte as usize];\n        if escape == __ {\n            continue;\n        }\n", "        let escape = match escape_of(byte) {\n            Some(escape) => escape,\n            None => continue,\n        };\n"), (M, "#[inline]\nfn format_escaped_str", "#[inline]\nfn escape_of(byte: u8) -> Option<&'static [u8]> {\n    let escape = ESCAPE[byte as usize];\n    if escape.is_empty() {\n        None\n    } else {\n        Some(escape)\n    }\n}\n\n#[inline]\nfn format_escaped_str")])
refac("f-pretty-entry", [(P, "        self.begin_object_value(writer)?;\n\n        if matches!(value.data_type(), DataType::Object | DataType::Array) && self.options.newline_in_nested {", "        self.begin_object_value(writer)?;\n        let nested = match value.data_type() {\n            DataType::Object | DataType::Array => true,\n            _ => false,\n        };\n\n        if nested && self.options.newline_in_nested {")])
refac("f-two-parts", [(M, "        if start < i {\n            writer.write_bytes(&bytes[start..i])?;\n        }\n        writer.write_bytes(escape)?;\n        start = i + 1;", "        let clean = &bytes[start..i];\n        writer.write_bytes(clean)?;\n        start = i + 1;\n        writer.write_bytes(escape)?;")])
