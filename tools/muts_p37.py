R, P, B, M = 'runtime.rs', 'process.rs', 'bytecode.rs', 'main.rs'
MUTS = [
    ('break', 'P37', R, "Value::Audio(_) => Type::Audio,", "Value::Audio(_) => Type::Image,"),
    ('break', 'P37', B, "BasicType::Entity => Type::Entity,", "BasicType::Entity => Type::Closure,"),
    ('break', 'P37', R, "x => Err(ConversionError { got: x.get_type(), expected: Type::Closure }),", "x => Err(ConversionError { got: x.get_type(), expected: Type::Entity }),"),
    ('break', 'P37', R, "x => Err(ConversionError { got: x.get_type(), expected: Type::Audio }),", "_ => Err(ConversionError { got: Type::Audio, expected: Type::Audio }),"),
    ('break', 'P37', R, "            Value::Bool(x) => *x,\n            x => return", "            Value::Bool(x) => *x,\n            Value::Number(x) => x.get() != 0.0,\n            x => return"),
    ('break', 'P37', R, "Value::Number(x) => SimpleValue::stringify_number(*x),\n            x => return", "Value::Number(x) => SimpleValue::stringify_number(*x),\n            Value::Bool(x) => if *x { \"true\".into() } else { \"false\".into() },\n            x => return"),
    ('break', 'P37', R, "SimpleValue::Image(_) => return Err(IntoJsonError::ComplexType(Type::Image)),", "SimpleValue::Image(x) => Json::String(x.name.as_str().to_owned()),"),
    ('break', 'P37', R, "SimpleValue::Audio(_) => return Err(IntoJsonError::ComplexType(Type::Audio)),", "SimpleValue::Audio(_) => return Err(IntoJsonError::ComplexType(Type::Image)),"),
    ('break', 'P37', R, "Json::Array(x) => SimpleValue::List(x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?),", "Json::Array(x) => SimpleValue::List(x.into_iter().filter(|x| !x.is_null()).map(SimpleValue::from_json).collect::<Result<_,_>>()?),"),
    ('break', 'P37', R, "Json::Array(x) => SimpleValue::List(x.into_iter().map(SimpleValue::from_netsblox_json).collect::<Result<_,_>>()?),", "Json::Array(x) => SimpleValue::List(x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>().map_err(|_| FromNetsBloxJsonError::Null)?),"),
    ('break', 'P37', R, "SimpleValue::List(vec![SimpleValue::Text(k.into()), SimpleValue::from_json(v)?])", "SimpleValue::List(vec![SimpleValue::from_json(v)?, SimpleValue::Text(k.into())])"),
    ('break', 'P37', R, "Json::Null => return Err(FromNetsBloxJsonError::Null),", "Json::Null => SimpleValue::Text(\"\".into()),"),
    ('break', 'P37', R, "Value::Closure(_) | Value::Entity(_) | Value::Native(_) => return Err(ToSimpleError::ComplexType(value.get_type())),", "Value::Entity(x) => SimpleValue::Text(x.borrow().name.as_str().into()),\n                Value::Closure(_) | Value::Native(_) => return Err(ToSimpleError::ComplexType(value.get_type())),"),
    ('break', 'P37', R, '"center-y" => center_y = Some', '"center-y" => center_x = Some'),
    ('break', 'P37', R, "center: center_x.zip(center_y)", "center: center_y.zip(center_x)"),
    ('break', 'P37', R, 'crate::util::base64_encode(&audio.content)', 'crate::util::base64_encode(audio.name.as_bytes())'),
    ('break', 'P37', R, '<sound name=\\"{}\\" sound=\\"data:audio/mpeg;base64,{}\\" />", ast::util::xml_escape(&audio.name)', '<sound name=\\"{}\\" sound=\\"data:audio/mpeg;base64,{}\\" />", audio.name'),
    ('break', 'P37', R, 'image=\\"data:image/png;base64,{}\\" />"', 'src=\\"data:image/png;base64,{}\\" />"'),
    ('break', 'P37', R, 'if value.as_str().starts_with("data:audio/")', 'if value.as_str().starts_with("data:image/")'),
    ('break', 'P37', P, "x => return Err(ErrorCause::ConversionError { got: x.get_type(), expected: Type::Audio }),", "x => return Err(ErrorCause::ConversionError { got: x.get_type(), expected: Type::Bool }),", 1),
    ('break', 'P37', P, "target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),", "_ => return Err(ErrorCause::ConversionError { got: Type::Entity, expected: Type::Entity }),", 0),
    ('break', 'P37', M, "NativeValue::OutputFile { .. } => NativeType::OutputFile,", "NativeValue::OutputFile { .. } => NativeType::InputFile,"),
    ('keep', 'P37', R, "SimpleValue::List(x) => Value::List(Gc::new(mc, RefLock::new(x.into_iter().map(|x| Value::from_simple(mc, x)).collect()))),", "SimpleValue::List(x) => {\n                let mut res = VecDeque::with_capacity(x.len());\n                for v in x { res.push_back(Value::from_simple(mc, v)); }\n                Value::List(Gc::new(mc, RefLock::new(res)))\n            }"),
    ('keep', 'P37', R, "            x => Err(ConversionError { got: x.get_type(), expected: Type::Entity }),", "            _ => Err(ConversionError { got: self.get_type(), expected: Type::Entity }),"),
    ('keep', 'P37', R, "        match self {\n            Value::Audio(x) => Ok(x),\n            x => Err(ConversionError { got: x.get_type(), expected: Type::Audio }),\n        }", "        if let Value::Audio(x) = self { return Ok(x); }\n        let got = self.get_type();\n        Err(ConversionError { got, expected: Type::Audio })"),
    ('keep', 'P37', R, "SimpleValue::List(x) => Json::Array(x.into_iter().map(SimpleValue::into_netsblox_json).collect()),", "SimpleValue::List(x) => {\n                let mut res = vec![];\n                for v in x { res.push(v.into_netsblox_json()); }\n                Json::Array(res)\n            }"),
    ('keep', 'P37', R, "Json::Object(x) => SimpleValue::List(x.into_iter().map(|(k, v)| {\n                Ok(SimpleValue::List(vec![SimpleValue::Text(k.into()), SimpleValue::from_json(v)?]))\n            }).collect::<Result<_,_>>()?),", "Json::Object(x) => SimpleValue::List(x.into_iter().map(|(k, v)| {\n                let v = SimpleValue::from_json(v)?;\n                let k = SimpleValue::Text(k.into());\n                Ok(SimpleValue::List(vec![k, v]))\n            }).collect::<Result<_,_>>()?),"),
    ('break', 'P37', R, "SimpleValue::List(x) => Json::Array(x.into_iter().map(SimpleValue::into_netsblox_json).collect()),", "SimpleValue::List(x) => {\n                let mut res = vec![];\n                for v in x {\n                    if matches!(v, SimpleValue::Image(_)) { continue }\n                    res.push(v.into_netsblox_json());\n                }\n                Json::Array(res)\n            }"),
    ('break', 'P37', R, '"name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadAudio)?,', '"name" => name = value.as_str().into(),'),
]
