"""Refactorings of how the path parser makes its errors (C34)."""
import re
P = "src/path/parse.rs"
SRC = open("/repo/" + P).read().split("#[cfg(test)]")[0]


def everywhere(a, b, flags=0):
    """Every replacement of the pattern, as a list of unique edits of whole functions."""
    new = re.sub(a, b, SRC, flags=flags)
    i = SRC.index("    pub fn parse(mut self)")
    j = new.index("    pub fn parse(mut self)")
    return SRC[i:], new[j:]


BUILD = "    #[inline]\n    fn remain(&self)"
a, b = everywhere(r"PathParseError::new\((\s*)([^;{}]*?),\s*self\.pos,?\s*\)", r"self.error(\2)")
refac("e-error-helper", [(P, a, b.replace(BUILD, "    #[inline]\n    fn error(&self, kind: PathParseErrorKind) -> PathParseError {\n        PathParseError::new(kind, self.pos)\n    }\n\n" + BUILD))])
a, b = everywhere(r"\bErr\(PathParseError::new\((\s*)([^;{}]*?),\s*self\.pos,?\s*\)\)", r"self.fail(\2)")
refac("e-fail-helper", [(P, a, b.replace(BUILD, "    fn fail<T>(&self, kind: PathParseErrorKind) -> PathParseResult<T> {\n        Err(PathParseError { kind, pos: self.pos })\n    }\n\n" + BUILD))])
a, b = everywhere(r"PathParseError::new\((\s*)([^;{}]*?),\s*self\.pos,?\s*\)", r"PathParseError { pos: self.pos, kind: \2 }")
refac("e-literal", [(P, a, b)])
refac("e-bracket-match", [(P, '''        if self.pop() != Some(END_ARRAY) {
            return Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos));
        }
        Ok(())''', '''        match self.pop() {
            Some(END_ARRAY) => Ok(()),
            Some(_) | None => Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos)),
        }''')])
refac("e-start-match", [(P, '''        if self.pop() != Some(ROOT) {
            return Err(PathParseError::new(PathParseErrorKind::NotStartWithDollar, self.pos));
        }
''', '''        match self.pop() {
            Some(c) if c == ROOT => {}
            _ => return Err(PathParseError::new(PathParseErrorKind::NotStartWithDollar, self.pos)),
        }
''')])
refac("e-escape-if", [(P, '''                b'\\\\' => match self.pop() {
                    Some(b'b') | Some(b'f') | Some(b'n') | Some(b'r') | Some(b't') | Some(b'"') | Some(b'/')
                    | Some(b'\\\\') => {
                        //Skip the next character after a backslash.
                    }
                    _ => {
                        return Err(PathParseError::new(PathParseErrorKind::InvalidEscapeSequence, self.pos));
                    }
                },''', '''                b'\\\\' => {
                    let escaped = self.pop();
                    if !matches!(escaped, Some(b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\\\')) {
                        return Err(PathParseError::new(PathParseErrorKind::InvalidEscapeSequence, self.pos));
                    }
                }''')])
refac("e-limit", [(P, "            if res > i32::MAX as usize {\n                return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos));\n            }\n",
                   "            if i32::try_from(res).is_err() {\n                return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos));\n            }\n")])
refac("e-index-let", [(P, '''        match self.peek() {
            Some(char) if char.is_ascii_digit() => {
                let index = self.parse_index()?;
                Ok(SingleIndex::Index(index))
            }
            None => Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos)),
            _ => Err(PathParseError::new(PathParseErrorKind::ArrayStepSyntaxError, self.pos)),
        }''', '''        let kind = match self.peek() {
            Some(b'0'..=b'9') => return self.parse_index().map(SingleIndex::Index),
            Some(_) => PathParseErrorKind::ArrayStepSyntaxError,
            None => PathParseErrorKind::MissingSquareBracket,
        };
        Err(PathParseError::new(kind, self.pos))''')])
refac("e-func-option", [(P, '''            match field_name {
                COUNT => self.push_step(Step::Func(FuncStep::Count)),
                SIZE => self.push_step(Step::Func(FuncStep::Size)),
                TYPE => self.push_step(Step::Func(FuncStep::Type)),
                _ => Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos)),
            }''', '''            let func = match field_name {
                COUNT => Some(FuncStep::Count),
                SIZE => Some(FuncStep::Size),
                TYPE => Some(FuncStep::Type),
                _ => None,
            };
            match func {
                Some(func) => self.push_step(Step::Func(func)),
                None => Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos)),
            }''')])
refac("e-func-ok-or", [(P, '''            match field_name {
                COUNT => self.push_step(Step::Func(FuncStep::Count)),
                SIZE => self.push_step(Step::Func(FuncStep::Size)),
                TYPE => self.push_step(Step::Func(FuncStep::Type)),
                _ => Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos)),
            }''', '''            let func = if field_name == COUNT {
                FuncStep::Count
            } else if field_name == SIZE {
                FuncStep::Size
            } else if field_name == TYPE {
                FuncStep::Type
            } else {
                return Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos));
            };
            self.push_step(Step::Func(func))''')])
refac("e-quote-early", [(P, '''        if let Some(end) = end {
            let key = self.create_key::<true>(begin, end)?;
            if DESCENDENT {
                self.push_step(Step::Descendent(key))
            } else {
                self.push_step(Step::Object(ObjectStep::Key(key)))
            }
        } else {
            Err(PathParseError::new(PathParseErrorKind::UnclosedQuotedStep, self.pos))
        }''', '''        let end = end.ok_or_else(|| PathParseError::new(PathParseErrorKind::UnclosedQuotedStep, self.pos))?;
        let key = self.create_key::<true>(begin, end)?;
        self.push_step(if DESCENDENT {
            Step::Descendent(key)
        } else {
            Step::Object(ObjectStep::Key(key))
        })''')])
refac("e-utf8-match", [(P, '''            std::str::from_utf8(bytes).map_err(|_| PathParseError::new(PathParseErrorKind::InvalidKeyStep, self.pos))?''', '''            match std::str::from_utf8(bytes) {
                Ok(str) => str,
                Err(_) => return Err(PathParseError::new(PathParseErrorKind::InvalidKeyStep, self.pos)),
            }''')])
