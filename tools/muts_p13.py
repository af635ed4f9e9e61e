R, P, B = 'runtime.rs', 'process.rs', 'bytecode.rs'
MUTS = [
    ('break', 'P13', R, "if value.is_nan() { return Err(NumberError::Nan); }", ""),
    ('break', 'P13', R, "if value.is_infinite() { return Err(NumberError::Infinity); }", "if value == f64::INFINITY { return Err(NumberError::Infinity); }"),
    ('break', 'P13', R, "Ok(if value.to_bits() == 0x8000000000000000 { 0.0 } else { value })", "Ok(value)"),
    ('break', 'P13', R, "Ok(if value.to_bits() == 0x8000000000000000 { 0.0 } else { value })", "Ok(if value.abs() < 1e-300 { 0.0 } else { value })"),
    ('break', 'P13', R, "if value.is_nan() { return Err(NumberError::Nan); }", "if value.to_bits() == f64::NAN.to_bits() { return Err(NumberError::Nan); }"),
    ('break', 'P13', P, "Ok(Number::new(util::modulus(a, b))?.into())", "Ok(Number::new(util::modulus(a, b)).unwrap().into())"),
    ('break', 'P13', P, "Number::new(libm::acos(x.as_number()?.get()).to_degrees())?.into()", "Number::new(libm::acos(x.as_number()?.get()).to_degrees()).unwrap_or(Number::new(0.0).unwrap()).into()"),
    ('break', 'P13', P, "Number::new(libm::acos(x.as_number()?.get()).to_degrees())?.into()", "match Number::new(libm::acos(x.as_number()?.get()).to_degrees()) { Ok(v) => v, Err(_) => Number::new(0.0)? }.into()"),
    ('break', 'P13', R, "Number::new(s as f64 * 100.0).unwrap();", "Number::new(s as f64 * 100.0 / v as f64).unwrap();", 1),
    ('break', 'P13', R, "Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_s", "Ok(Number::new(x.get().clamp(0.0, 100.0)).unwrap_or(x))), |props, value| props.pen_color_s"),
    ('keep', 'P13', R, "if value.is_nan() { return Err(NumberError::Nan); }\n        if value.is_infinite() { return Err(NumberError::Infinity); }", "if !value.is_finite() { return Err(if value != value { NumberError::Nan } else { NumberError::Infinity }); }"),
    ('keep', 'P13', R, "Ok(if value.to_bits() == 0x8000000000000000 { 0.0 } else { value })", "Ok(value + 0.0)"),
    ('keep', 'P13', R, "Ok(if value.to_bits() == 0x8000000000000000 { 0.0 } else { value })", "if value == 0.0 { return Ok(0.0); }\n        Ok(value)"),
    ('keep', 'P13', P, "Number::new(libm::acos(x.as_number()?.get()).to_degrees())?.into()", "match Number::new(libm::acos(x.as_number()?.get()).to_degrees()) { Ok(v) => v, Err(e) => return Err(e.into()) }.into()"),
    ('keep', 'P13', R, "let zero = Number::new(0.0).unwrap();\n        let hundred", "fn num(x: u8) -> Number { Number::new(x as f64).expect(\"finite\") }\n        let zero = num(0);\n        let hundred"),
    ('keep', 'P13', R, "Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()", "let semis = f64::from(self.0) - 69.0;\n        let ratio = libm::exp2(semis / 12.0);\n        Number::new(ratio * 440.0).unwrap()"),
    ('break', 'P13', P, "Ok(Number::new(util::modulus(a, b))?.into())", "Ok(Number::new(util::modulus(a, b).min(f64::MAX))?.into())"),
    ('break', 'P13', P, "Ok(Number::new(util::modulus(a, b))?.into())", "let r = util::modulus(a, b);\n                Ok(Number::new(if r.is_nan() { 0.0 } else { r })?.into())"),
    ('break', 'P13', P, "Number::new(libm::acos(x.as_number()?.get()).to_degrees())?.into()", "Number::new((libm::acos(x.as_number()?.get()).to_degrees() * 1000.0) as i64 as f64 / 1000.0)?.into()"),
    ('break', 'P13', R, "Number::new((self.size.get() + x.get()).max(0.0))", "Number::new((self.size.get() + x.get()).clamp(0.0, f64::MAX))"),
    ('break', 'P13', R, "_ => s.parse::<f64>().ok(),", "_ => s.parse::<f64>().ok().map(|x| if x == f64::INFINITY { f64::MAX } else { x }),"),
    ('keep', 'P13', R, "Number::new((self.size.get() + x.get()).max(0.0))", "Number::new({ fn nonneg(x: f64) -> f64 { x.max(0.0) } nonneg(self.size.get() + x.get()) })"),
    ('keep', 'P13', R, "Property::Size => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.size.get() + x.get()).max(0.0)).map_err(Into::into)), |props, value| props.size = value),", "Property::Size => {\n                let cur = self.size.get();\n                self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| { let next = cur + x.get(); Number::new(next.max(0.0)).map_err(Into::into) }), |props, value| props.size = value)\n            }"),
]
