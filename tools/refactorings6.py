S = "src/serde.rs"
refac("s-str-direct", [(S, "            buf.serialize(serializer)\n", "            serializer.serialize_str(&buf)\n")])
refac("s-binary-first", [(S, "        let mut buf = String::new();\n        if serializer.is_human_readable() {\n            self.format_to(false, &mut buf).map_err(serde::ser::Error::custom)?;\n            buf.serialize(serializer)\n        } else {\n            serializer.serialize_bytes(self.as_bytes())\n        }\n", "        if !serializer.is_human_readable() {\n            return serializer.serialize_bytes(self.as_bytes());\n        }\n        let mut buf = String::new();\n        match self.format_to(false, &mut buf) {\n            Ok(()) => buf.serialize(serializer),\n            Err(e) => Err(serde::ser::Error::custom(e)),\n        }\n")])
refac("s-helper", [(S, "            self.format_to(false, &mut buf).map_err(serde::ser::Error::custom)?;\n            buf.serialize(serializer)\n", "            text_of(self, &mut buf).map_err(serde::ser::Error::custom)?;\n            buf.serialize(serializer)\n"), (S, "#[cfg_attr(docsrs, doc(cfg(feature = \"serde\")))]\nimpl<'de>", "fn text_of(yason: &YasonBuf, buf: &mut String) -> crate::format::FormatResult<()> {\n    yason.format_to(false, buf)\n}\n\n#[cfg_attr(docsrs, doc(cfg(feature = \"serde\")))]\nimpl<'de>")])
refac("s-to-vec", [(S, "                buf.extend_from_slice(v);\n                let res = unsafe { YasonBuf::new_unchecked(buf) };\n                Ok(res)\n", "                buf.extend(v.iter().copied());\n                Ok(unsafe { YasonBuf::new_unchecked(buf) })\n")])
refac("s-with-capacity", [(S, "                let mut buf = Vec::new();\n                buf.try_reserve(v.len()).map_err(serde::de::Error::custom)?;\n                buf.extend_from_slice(v);\n                let res = unsafe { YasonBuf::new_unchecked(buf) };\n                Ok(res)\n", "                let buf = v.to_vec();\n                Ok(unsafe { YasonBuf::new_unchecked(buf) })\n")])
refac("s-parse-match", [(S, "                YasonBuf::parse(v).map_err(serde::de::Error::custom)\n", "                match YasonBuf::parse(v) {\n                    Ok(res) => Ok(res),\n                    Err(e) => Err(serde::de::Error::custom(e)),\n                }\n")])
refac("s-question-mark", [(S, "            serializer.serialize_bytes(self.as_bytes())\n        }\n", "            let bytes = self.as_bytes();\n            let res = serializer.serialize_bytes(bytes)?;\n            Ok(res)\n        }\n")])
refac("s-custom-closure", [(S, "            self.format_to(false, &mut buf).map_err(serde::ser::Error::custom)?;\n", "            self.format_to(false, &mut buf).map_err(|e| serde::ser::Error::custom(e))?;\n")])
refac("s-visitor-field", [(S, "        if deserializer.is_human_readable() {\n            deserializer.deserialize_str(YasonBufVisitor)\n        } else {\n            deserializer.deserialize_bytes(YasonBufVisitor)\n        }\n", "        let visitor = YasonBufVisitor;\n        match deserializer.is_human_readable() {\n            true => deserializer.deserialize_str(visitor),\n            false => deserializer.deserialize_bytes(visitor),\n        }\n")])
