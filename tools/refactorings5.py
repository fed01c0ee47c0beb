J = "src/json.rs"
refac("j-number-match", [(J, "    Number::from_str(buf.as_str()).map_or_else(\n        |e| match e {\n            DecimalParseError::Underflow => Ok(Number::ZERO),\n            DecimalParseError::Overflow => Err(BuildError::NumberError(NumberError::Overflow)),\n            _ => unreachable!(\"internal error: entered unreachable parsing error\"),\n        },\n        Ok,\n    )", "    match Number::from_str(buf.as_str()) {\n        Ok(number) => Ok(number),\n        Err(DecimalParseError::Underflow) => Ok(Number::ZERO),\n        Err(DecimalParseError::Overflow) => Err(BuildError::NumberError(NumberError::Overflow)),\n        Err(_) => unreachable!(\"internal error: entered unreachable parsing error\"),\n    }")])
refac("j-number-parse", [(J, "    Number::from_str(buf.as_str()).map_or_else(", "    let text: &str = buf;\n    text.parse::<Number>().map_or_else(")])
refac("j-number-to-string", [(J, "    buf.clear();\n    buf.try_reserve(256)?;\n    write!(buf, \"{}\", val).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;\n", "    buf.clear();\n    buf.try_reserve(256)?;\n    buf.push_str(&val.to_string());\n    let _ = NumberError::FormatError;\n")])
refac("j-number-as-str", [(J, "    write!(buf, \"{}\", val).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;\n", "    buf.write_str(&val.to_string()).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;\n")])
refac("j-index-loop", [(J, "    for value in array {\n        match value {", "    for i in 0..array.len() {\n        match &array[i] {")])
refac("j-map-iter", [(J, "    for (key, value) in object {\n", "    let mut entries = object.iter();\n    while let Some((key, value)) = entries.next() {\n")])
refac("j-value-helper", [(J, "    for value in array {\n        match value {", "    for value in array {\n        write_element(builder, value, buf)?;\n    }\n    Ok(())\n}\n\nfn write_element<T: ArrBuilder>(builder: &mut T, value: &serde_json::Value, buf: &mut String) -> BuildResult<()> {\n    {\n        match value {")])
refac("j-nested-helper", [(J, "                let mut array_builder = builder.push_array(key, checked_element_count(val.len())?)?;\n                write_array(&mut array_builder, val, buf)?;\n                array_builder.finish()?;\n", "                let count = checked_element_count(val.len())?;\n                let mut array_builder = builder.push_array(key, count)?;\n                fill(&mut array_builder, val, buf)?;\n                array_builder.finish()?;\n"), (J, "#[inline]\nfn number2decimal", "fn fill<T: ArrBuilder>(builder: &mut T, values: &[Value], buf: &mut String) -> BuildResult<()> {\n    write_array(builder, values, buf)\n}\n\n#[inline]\nfn number2decimal")])
refac("j-number-first", [(J, "                builder.push_number(key, number2decimal(val, buf)?)?;", "                let number = number2decimal(val, buf)?;\n                builder.push_number(key, number)?;")])
refac("j-try-for-each", [(J, "    for value in array {\n        match value {", "    array.iter().try_for_each(|value| -> BuildResult<()> {\n        match value {"), (J, "                write_object(&mut object_builder, val, buf)?;\n                object_builder.finish()?;\n            }\n        }\n    }\n    Ok(())\n}\n\n#[inline]\nfn write_object", "                write_object(&mut object_builder, val, buf)?;\n                object_builder.finish()?;\n            }\n        }\n        Ok(())\n    })\n}\n\n#[inline]\nfn write_object")])
