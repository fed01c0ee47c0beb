P = "src/path/parse.rs"
WSP = '''        let count = self
            .remain()
            .map_or(0, |rem| rem.iter().take_while(|&i| i.is_ascii_whitespace()).count());
        self.advance(count);'''
refac("pp-ws-loop", [(P, WSP, '''        while self.pos < self.input.len() && self.input[self.pos].is_ascii_whitespace() {
            self.pos += 1;
        }''')])
refac("pp-ws-peek", [(P, WSP, '''        while let Some(c) = self.peek() {
            if !c.is_ascii_whitespace() {
                break;
            }
            self.advance(1);
        }''')])
refac("pp-ws-matches", [(P, "|&i| i.is_ascii_whitespace()", "|i| matches!(i, b' ' | b'\\t' | b'\\n' | b'\\r' | 0x0c)")])
refac("pp-skip-loop", [(P, '''        let count = self.remain().map_or(0, |rem| rem.iter().take_while(|i| f(**i)).count());
        self.advance(count);''', '''        while let Some(&c) = self.input.get(self.pos) {
            if f(c) {
                self.pos += 1;
            } else {
                break;
            }
        }''')])
refac("pp-digits-checked", [(P, '''            res = res * 10 + (i - b'0') as usize;
            if res > i32::MAX as usize {
                return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos));
            }''', '''            let digit = usize::from(i - b'0');
            res = match res.checked_mul(10).and_then(|r| r.checked_add(digit)) {
                Some(r) if r <= i32::MAX as usize => r,
                _ => return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos)),
            };''')])
refac("pp-digits-inline", [(P, '''        let begin = self.pos;
        self.skip(|i| i.is_ascii_digit());
        let digits = &self.input[begin..self.pos];

        let mut res = 0usize;
        for &i in digits {
            res = res * 10 + (i - b'0') as usize;
            if res > i32::MAX as usize {
                return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos));
            }
        }
''', '''        let mut res = 0usize;
        while let Some(c) = self.peek() {
            if !c.is_ascii_digit() {
                break;
            }
            self.advance(1);
            res = res * 10 + (c - b'0') as usize;
            if res > i32::MAX as usize {
                return Err(PathParseError::new(PathParseErrorKind::ArrayIndexTooLong, self.pos));
            }
        }
''')])
refac("pp-digits-u64", [(P, "let mut res = 0usize;", "let mut res: u64 = 0;"), (P, "res = res * 10 + (i - b'0') as usize;\n            if res > i32::MAX as usize {", "res = res * 10 + u64::from(i - b'0');\n            if res > i32::MAX as u64 {"), (P, "        Ok(res)\n", "        Ok(res as usize)\n")])
refac("pp-keyword-starts", [(P, '''        let len = keyword.len();
        match self.remain() {
            Some(bytes) => {
                if bytes.len() < len {
                    false
                } else {
                    &bytes[0..len] == keyword
                }
            }
            None => false,
        }''', '''        self.remain().map_or(false, |bytes| bytes.starts_with(keyword))''')])
refac("pp-keyword-get", [(P, '''        let len = keyword.len();
        match self.remain() {
            Some(bytes) => {
                if bytes.len() < len {
                    false
                } else {
                    &bytes[0..len] == keyword
                }
            }
            None => false,
        }''', '''        self.input.get(self.pos..self.pos + keyword.len()) == Some(keyword)''')])
refac("pp-method-early", [(P, '''            match field_name {
                COUNT => self.push_step(Step::Func(FuncStep::Count)),
                SIZE => self.push_step(Step::Func(FuncStep::Size)),
                TYPE => self.push_step(Step::Func(FuncStep::Type)),
                _ => Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos)),
            }''', '''            let func = if field_name == COUNT {
                FuncStep::Count
            } else if field_name == SIZE {
                FuncStep::Size
            } else if field_name == TYPE {
                FuncStep::Type
            } else {
                return Err(PathParseError::new(PathParseErrorKind::InvalidFunction, self.pos));
            };
            self.push_step(Step::Func(func))''')])
refac("pp-expect-helper", [(P, '''        self.eat_whitespaces();
        if self.pop() != Some(END_ARRAY) {
            return Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos));
        }
        Ok(())
    }
''', '''        self.eat_whitespaces();
        self.expect(END_ARRAY, PathParseErrorKind::MissingSquareBracket)
    }

    #[inline]
    fn expect(&mut self, c: u8, kind: PathParseErrorKind) -> PathParseResult<()> {
        match self.pop() {
            Some(x) if x == c => Ok(()),
            _ => Err(PathParseError::new(kind, self.pos)),
        }
    }
''')])
refac("pp-cells-loop", [(P, "                while self.parse_array_cell(&mut steps)? {}\n", '''                loop {
                    let more = self.parse_array_cell(&mut steps)?;
                    if !more {
                        break;
                    }
                }
''')])
refac("pp-single-match", [(P, '''                if steps.len() == 1 {
                    // SAFETY: steps.len() == 1
                    let step = steps.pop().unwrap();
                    match step {
                        SingleStep::Single(single_index) => match single_index {
                            SingleIndex::Index(index) => self.push_step(Step::Array(ArrayStep::Index(index)))?,
                            SingleIndex::Last(minus) => self.push_step(Step::Array(ArrayStep::Last(minus)))?,
                        },
                        SingleStep::Range(begin, end) => self.push_step(Step::Array(ArrayStep::Range(begin, end)))?,
                    };
                } else {
                    self.push_step(Step::Array(ArrayStep::Multiple(steps)))?;
                }''', '''                let step = if steps.len() > 1 {
                    ArrayStep::Multiple(steps)
                } else {
                    match steps.pop().unwrap() {
                        SingleStep::Single(SingleIndex::Index(index)) => ArrayStep::Index(index),
                        SingleStep::Single(SingleIndex::Last(minus)) => ArrayStep::Last(minus),
                        SingleStep::Range(begin, end) => ArrayStep::Range(begin, end),
                    }
                };
                self.push_step(Step::Array(step))?;''')])
refac("pp-main-loop", [(P, '''        while !self.exhausted() {
            match self.pop() {
                Some(BEGIN_ARRAY) => self.parse_array_step()?,
                Some(DOT) => match self.peek() {
                    Some(DOT) => self.parse_descendent_step()?,
                    _ => self.parse_object_step()?,
                },
                None => {}
                _ => {''', '''        while let Some(c) = self.pop() {
            match c {
                BEGIN_ARRAY => self.parse_array_step()?,
                DOT if self.peek() == Some(DOT) => self.parse_descendent_step()?,
                DOT => self.parse_object_step()?,
                _ => {''')])
refac("pp-step-fn", [(P, '''        while !self.exhausted() {
            match self.pop() {
                Some(BEGIN_ARRAY) => self.parse_array_step()?,
                Some(DOT) => match self.peek() {
                    Some(DOT) => self.parse_descendent_step()?,
                    _ => self.parse_object_step()?,
                },
                None => {}
                _ => {
                    return Err(PathParseError::new(
                        PathParseErrorKind::InvalidCharacterAtStepStart,
                        self.pos,
                    ))
                }
            }
            self.eat_whitespaces();
        }

        Ok(PathExpression::new(self.path))
    }
''', '''        while !self.exhausted() {
            self.parse_step()?;
            self.eat_whitespaces();
        }

        Ok(PathExpression::new(self.path))
    }

    #[inline]
    fn parse_step(&mut self) -> PathParseResult<()> {
        match self.pop() {
            Some(BEGIN_ARRAY) => self.parse_array_step(),
            Some(DOT) => match self.peek() {
                Some(DOT) => self.parse_descendent_step(),
                _ => self.parse_object_step(),
            },
            None => Ok(()),
            _ => Err(PathParseError::new(
                PathParseErrorKind::InvalidCharacterAtStepStart,
                self.pos,
            )),
        }
    }
''')])
refac("pp-quoted-fn", [(P, '''        let begin = self.pos;
        let mut end = None;
        while let Some(c) = self.pop() {
            match c {
                b'\\\\' => match self.pop() {
                    Some(b'b') | Some(b'f') | Some(b'n') | Some(b'r') | Some(b't') | Some(b'"') | Some(b'/')
                    | Some(b'\\\\') => {
                        //Skip the next character after a backslash.
                    }
                    _ => {
                        return Err(PathParseError::new(PathParseErrorKind::InvalidEscapeSequence, self.pos));
                    }
                },
                b'"' => {
                    // An unescaped double quote marks the end of the quoted string.
                    end = Some(self.pos - 1);
                    break;
                }
                _ => {}
            }
        }

        if let Some(end) = end {
            let key = self.create_key::<true>(begin, end)?;
            if DESCENDENT {
                self.push_step(Step::Descendent(key))
            } else {
                self.push_step(Step::Object(ObjectStep::Key(key)))
            }
        } else {
            Err(PathParseError::new(PathParseErrorKind::UnclosedQuotedStep, self.pos))
        }''', '''        let begin = self.pos;
        let end = match self.find_quote()? {
            Some(end) => end,
            None => return Err(PathParseError::new(PathParseErrorKind::UnclosedQuotedStep, self.pos)),
        };
        let key = self.create_key::<true>(begin, end)?;
        let step = if DESCENDENT { Step::Descendent(key) } else { Step::Object(ObjectStep::Key(key)) };
        self.push_step(step)'''), (P, '''    #[inline]
    fn parse_unquoted_field_name<''', '''    /// The position of the closing quote, which is consumed.
    #[inline]
    fn find_quote(&mut self) -> PathParseResult<Option<usize>> {
        loop {
            let at = self.pos;
            match self.pop() {
                None => return Ok(None),
                Some(b'"') => return Ok(Some(at)),
                Some(b'\\\\') => {
                    let escaped = self.pop();
                    if !matches!(escaped, Some(b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\\\')) {
                        return Err(PathParseError::new(PathParseErrorKind::InvalidEscapeSequence, self.pos));
                    }
                }
                Some(_) => {}
            }
        }
    }

    #[inline]
    fn parse_unquoted_field_name<''')])
refac("pp-alnum", [(P, "self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());", "self.skip(|i| i.is_ascii_alphanumeric());")])
refac("pp-remain-get", [(P, '''        if self.pos < self.input.len() {
            Some(&self.input[self.pos..])
        } else {
            None
        }''', '''        match self.input.get(self.pos..) {
            Some(rest) if !rest.is_empty() => Some(rest),
            _ => None,
        }''')])
refac("pp-pop-get", [(P, '''        if self.exhausted() {
            return None;
        }
        let val = self.input[self.pos];
        self.pos += 1;
        Some(val)''', '''        let val = self.peek()?;
        self.advance(1);
        Some(val)''')])
refac("pp-last-if", [(P, '''        match self.peek() {
            Some(MINUS) => {
                self.advance(CTRL_CHAR_LEN);
                self.eat_whitespaces();
                match self.peek() {
                    Some(char) if char.is_ascii_digit() => Ok(SingleIndex::Last(self.parse_index()?)),
                    _ => Err(PathParseError::new(PathParseErrorKind::ArrayStepSyntaxError, self.pos)),
                }
            }
            None => Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos)),
            _ => Ok(SingleIndex::Last(0)),
        }''', '''        let next = match self.peek() {
            None => return Err(PathParseError::new(PathParseErrorKind::MissingSquareBracket, self.pos)),
            Some(next) => next,
        };
        if next != MINUS {
            return Ok(SingleIndex::Last(0));
        }
        self.advance(CTRL_CHAR_LEN);
        self.eat_whitespaces();
        if !self.peek().map_or(false, |c| c.is_ascii_digit()) {
            return Err(PathParseError::new(PathParseErrorKind::ArrayStepSyntaxError, self.pos));
        }
        let minus = self.parse_index()?;
        Ok(SingleIndex::Last(minus))''')])
refac("pp-key-vec", [(P, '''            std::str::from_utf8(bytes).map_err(|_| PathParseError::new(PathParseErrorKind::InvalidKeyStep, self.pos))?''', '''            match std::str::from_utf8(bytes) {
                Ok(s) => s,
                Err(_) => return Err(PathParseError::new(PathParseErrorKind::InvalidKeyStep, self.pos)),
            }''')])
