R='runtime.rs'
MUTS=[
('break','P37',R,'Value::Text(x) => SimpleValue::Text((**x).into()),','Value::Text(x) => match SimpleValue::parse_number(x) { Some(n) if n.get().fract() == 0.0 => SimpleValue::Number(n), _ => SimpleValue::Text((**x).into()) },'),
('break','P37',R,'Value::Text(x) => SimpleValue::Text((**x).into()),','Value::Text(x) => SimpleValue::Text(x.trim_end().into()),'),
('break','P37',R,'center-x=\\"{x}\\"','center-x=\\"{x:.3}\\"'),
('break','P37',R,'"center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or','"center-x" => center_x = Some(value.as_str().parse::<i32>().ok().and_then(|x| Number::new(x as f64).ok()).ok_or'),
('break','P37',R,'JsonNumber::from_f64(x.get()).unwrap()), // Json','JsonNumber::from_f64(x.get() as f32 as f64).unwrap()), // Json',0),
('break','P37',R,'JsonNumber::from_f64(x.get()).unwrap()), // Json','JsonNumber::from_f64(if x.get() == 0.0 { 0.0 } else { (x.get() * 1e12).round() / 1e12 }).unwrap()), // Json',1),
('break','P37',R,'Number::new(x.as_f64().unwrap()).unwrap()), // Json','Number::new(x.as_i64().map(|x| x as i32 as f64).unwrap_or_else(|| x.as_f64().unwrap())).unwrap()), // Json',0),
('break','P37',R,'"name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)?,','"name" => if !value.as_str().is_empty() { name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)? }'),
('break','P37',R,'"name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)?,','"name" => { name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)?; if name.contains(\'&\') { name = ast::util::xml_unescape(&name).map_err(|_| FromNetsBloxJsonError::BadImage)?; } }'),
('break','P37',R,'crate::util::base64_encode(&img.content)','crate::util::base64_encode(if img.content.len() > 1 << 20 { &img.content[..1 << 20] } else { &img.content[..] })'),
('break','P37',R,'SimpleValue::Image(x) => Value::Image(Rc::new(x)),','SimpleValue::Image(mut x) => { if x.center.is_none() { x.center = Some((Number::new(0.0).unwrap(), Number::new(0.0).unwrap())); } Value::Image(Rc::new(x)) }'),
('break','P37',R,'Value::Bool(x) => *x,\n            x => return Err','Value::Bool(x) => *x,\n            Value::Text(x) if &**x == "true" => true,\n            x => return Err'),
('break','P37',R,'Value::List(x) => Ok(*x),\n            x => Err','Value::List(x) if !x.borrow().is_empty() => Ok(*x),\n            x => Err'),
('break','P37',R,'if !cache.insert(identity) { return Err(ToSimpleError::Cyclic) }','if !cache.insert(identity) { return Ok(SimpleValue::List(vec![])) }'),
('break','P37','util.rs','','') if 0 else
('keep','P37',R,'SimpleValue::Text(x) => Value::Text(x.as_str().into()),','SimpleValue::Text(x) => { let t: Text = x.as_str().into(); t.into() }'),
('keep','P37',R,'''                let center_attrs = img.center.map(|(x, y)| format!(" center-x=\\"{x}\\" center-y=\\"{y}\\"")).unwrap_or_default();''','''                let center_attrs = match img.center {
                    Some((x, y)) => format!(" center-x=\\"{x}\\" center-y=\\"{y}\\""),
                    None => alloc::string::String::new(),
                };'''),
('keep','P37',R,'''            Value::Bool(x) => *x,
            x => return Err(ConversionError { got: x.get_type(), expected: Type::Bool }),''','''            Value::Bool(true) => true,
            Value::Bool(false) => false,
            x => return Err(ConversionError { got: x.get_type(), expected: Type::Bool }),'''),
('keep','P37',R,'''                    let res = SimpleValue::List(x.borrow().iter().map(|x| simplify(x, cache)).collect::<Result<_,_>>()?);''','''                    let mut items = Vec::with_capacity(x.borrow().len());
                    for item in x.borrow().iter() { items.push(simplify(item, cache)?); }
                    let res = SimpleValue::List(items);'''),
]

MUTS+=[
('break','P37',R,'center-x=\\"{x}\\" center-y=\\"{y}\\"','center-x=\\"{y}\\" center-y=\\"{x}\\"'),
('break','P37',R,'center: center_x.zip(center_y)','center: center_x.zip(center_y).filter(|(x, y)| x.get() != 0.0 || y.get() != 0.0)'),
('keep','P37',R,'''img.center.map(|(x, y)| format!(" center-x=\\"{x}\\" center-y=\\"{y}\\"")).unwrap_or_default()''','''img.center.map(|center| format!(" center-x=\\"{}\\" center-y=\\"{}\\"", center.0, center.1)).unwrap_or_default()'''),
]

MUTS+=[('break','P37',R,'''            Value::Bool(x) => *x,
            x => return Err(ConversionError { got: x.get_type(), expected: Type::Bool }),''','''            Value::Bool(true) => true,
            Value::Bool(false) => true,
            x => return Err(ConversionError { got: x.get_type(), expected: Type::Bool }),''')]

MUTS+=[('break','P37','util.rs','STANDARD.decode(content)','URL_SAFE.decode(content)'),
('break','P37','util.rs','STANDARD.encode(content)','STANDARD_NO_PAD.encode(content)'),
('break','P37','util.rs','STANDARD.decode(content)','STANDARD.decode(content.trim())'),
('keep','P37','util.rs','base64::engine::general_purpose::STANDARD.decode(content)','{ let engine = &base64::engine::general_purpose::STANDARD; engine.decode(content.as_bytes()) }'),
]
