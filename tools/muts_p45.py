B, R, J = 'bytecode.rs', 'runtime.rs', 'project.rs'
P = 'P45'
GV = 'get_value(&%s.init, &mut ref_values, &refs, &mut string_refs, &mut image_refs, &mut audio_refs)?'
def b(f, o, n, *k): return ('break', P, f, o, n) + k
def kp(f, o, n, *k): return ('keep', P, f, o, n) + k
MUTS = [
    b(B, 'let size = Number::new(entity.scale * 100.0)?;', 'let size = Number::new(entity.scale)?;'),
    b(B, 'let pos = (Number::new(entity.pos.0)?, Number::new(entity.pos.1)?);', 'let pos = (Number::new(entity.pos.1)?, Number::new(entity.pos.0)?);'),
    b(B, 'let heading = Number::new(util::modulus(entity.heading, 360.0))?;', 'let heading = Number::new(entity.heading % 360.0)?;'),
    b(B, 'let heading = Number::new(util::modulus(entity.heading, 360.0))?;', 'let heading = Number::new(util::modulus(entity.heading, 180.0))?;'),
    b(B, 'let active_costume = entity.active_costume;', 'let active_costume = entity.active_costume.filter(|x| *x > 0);'),
    b(B, 'let visible = entity.visible;', 'let visible = entity.visible || entity.costumes.is_empty();'),
    b(B, 'let color = entity.color;', 'let color = (entity.color.0, entity.color.1, entity.color.2, 255);'),
    b(B, 'sounds.insert(sound.def.name.clone(),', 'sounds.insert(sound.def.trans_name.clone(),'),
    b(B, 'for costume in entity.costumes.iter() {\n                costumes.insert', 'for costume in entity.costumes.iter().skip(1) {\n                costumes.insert'),
    b(B, 'for sound in entity.sounds.iter() {\n                sounds.insert', 'for sound in entity.sounds.iter() {\n                if sounds.len() > 8 { break }\n                sounds.insert'),
    b(B, 'for field in entity.fields.iter() {\n                fields.insert', 'for field in entity.fields.iter() {\n                if field.def.name.starts_with(\'_\') { continue }\n                fields.insert'),
    b(B, 'Some(x) => x,\n                    None => continue,\n                };\n                let event', 'Some(x) if !script.stmts.is_empty() => x,\n                    _ => continue,\n                };\n                let event'),
    b(B, '"up arrow" => Some(KeyCode::Up),', '"up arrow" => Some(KeyCode::Down),'),
    b(B, '"any key" => None,', '"any key" => Some(KeyCode::Enter),'),
    b(B, '"space" => Some(KeyCode::Char(\' \')),', '"space" => Some(KeyCode::Char(\'_\')),'),
    b(B, '"enter" => Some(KeyCode::Enter),', '"enter" | "return" => Some(KeyCode::Enter),') if False else b(B, '"enter" => Some(KeyCode::Enter),', '"enter" => Some(KeyCode::Char(\'\\n\')),'),
    b(B, 'chars.next().map(|x| KeyCode::Char(x.to_ascii_lowercase()));', 'chars.next().map(|x| KeyCode::Char(x));'),
    b(B, 'if res.is_none() || chars.next().is_some() { return Err', 'if res.is_none() { return Err'),
    b(B, 'ast::HatKind::OnClone => Event::OnClone,', 'ast::HatKind::OnClone => Event::OnFlag,'),
    b(B, 'ast::HatKind::LocalMessage { msg_type } => Event::LocalMessage { msg_type: msg_type.clone() },', 'ast::HatKind::LocalMessage { .. } => Event::LocalMessage { msg_type: None },'),
    b(B, 'Event::NetworkMessage { msg_type: msg_type.clone(), fields: fields.iter().map(|x| x.trans_name.clone()).collect() },', 'Event::NetworkMessage { msg_type: msg_type.clone(), fields: fields.iter().map(|x| x.name.clone()).collect() },'),
    b(B, 'Event::Custom { name: name.clone(), fields: fields.iter().map', 'Event::Custom { name: name.clone(), fields: fields.iter().rev().map'),
    b(B, 'kind => return Err(CompileError::UnsupportedEvent { kind }),', 'ast::HatKind::MouseUp => continue,\n                    kind => return Err(CompileError::UnsupportedEvent { kind }),'),
    b(B, 'kind => return Err(CompileError::UnsupportedEvent { kind }),', '_ => continue,'),
    b(B, 'scripts.push((event, pos));', 'scripts.push((event, pos));\n                if scripts.len() >= 256 { break }'),
    b(B, 'scripts.push((event, pos));', 'if !scripts.iter().any(|x: &(Event, usize)| x.1 == pos) || pos > 0 { scripts.push((event, 0)); }'),
    b(B, 'ast::Constant::E => InitValue::Number(Number::new(core::f64::consts::E)?),', 'ast::Constant::E => InitValue::Number(Number::new(core::f64::consts::PI)?),'),
    b(B, 'ast::Value::Bool(x) => InitValue::Bool(*x),', 'ast::Value::Bool(x) => InitValue::Bool(!*x),'),
    b(B, '(Number::new(x)?, Number::new(y)?))).transpose()?;', '(Number::new(y)?, Number::new(x)?))).transpose()?;'),
    b(B, 'RefValue::Image(x.0.clone(), center, x.2.clone())), value));\n                        ref_values.len() - 1', 'RefValue::Image(x.0.clone(), center, x.2.clone())), value));\n                        ref_values.len()'),
    b(B, 'RefValue::Image(x.0.clone(), center, x.2.clone())', 'RefValue::Image(x.0.clone(), None.or(center.filter(|_| !x.0.is_empty())), x.2.clone())'),
    b(B, 'RefValue::Audio(x.0.clone(), x.1.clone())', 'RefValue::Audio(x.0.clone(), Default::default())'),
    b(B, 'RefValue::List(values.iter().map(|x|', 'RefValue::List(values.iter().rev().map(|x|'),
    b(B, 'ref_values.push((Some(res), value));\n                            InitValue::Ref(ref_values.len() - 1)', 'let idx = ref_values.len();\n                            ref_values.push((Some(res), value));\n                            InitValue::Ref(idx - 1)'),
    b(B, '                    for value in values {\n                        register_ref_values(value, ref_values, refs);\n                    }\n', '                    if ref_id.is_some() { for value in values {\n                        register_ref_values(value, ref_values, refs);\n                    } }\n'),
    b(B, '            for field in entity.fields.iter() {\n                register_ref_values(&field.init, &mut ref_values, &mut refs);\n            }\n', ''),
    b(R, 'RefValue::Image(content, center, name) => Value::Image(Rc::new(Image {content: content.clone(), center: *center, name: name.clone() }))', 'RefValue::Image(content, center, name) => Value::Image(Rc::new(Image {content: content.clone(), center: center.filter(|c| c.0.get() > 0.0), name: name.clone() }))'),
    b(R, 'RefValue::Audio(content, name) => Value::Audio(Rc::new(Audio { content: content.clone(), name: name.clone() }))', 'RefValue::Audio(content, _name) => Value::Audio(Rc::new(Audio { content: content.clone(), name: "sound".into() }))'),
    b(R, 'for value in values {\n                        allocated_ref.push_back(get_value(value, &allocated_refs));', 'for value in values {\n                        allocated_ref.push_front(get_value(value, &allocated_refs));'),
    b(R, 'let mut allocated_ref = allocated_ref.borrow_mut(mc);\n                    for', 'let mut allocated_ref = allocated_ref.borrow_mut(mc);\n                    if values.len() == 1 { continue }\n                    for'),
    b(R, 'let costume = entity_info.active_costume.and_then(|x| costume_list.as_slice().get(x))', 'let costume = entity_info.active_costume.and_then(|x| costume_list.as_slice().get(x.saturating_sub(1)))'),
    b(R, 'let costume = entity_info.active_costume.and_then(|x| costume_list.as_slice().get(x))', 'let costume = entity_info.active_costume.and_then(|_| costume_list.as_slice().get(0))'),
    b(R, '            props.heading = entity_info.heading;\n\n', '\n'),
    b(R, 'props.pen_color_t = Number::new((1.0 - a as f64) * 100.0).unwrap();', 'props.pen_color_t = Number::new(a as f64 * 100.0).unwrap();', 1),
    b(R, 'props.pen_color_s = Number::new(s as f64 * 100.0).unwrap();', 'props.pen_color_s = Number::new(v as f64 * 100.0).unwrap();', 1),
    b(R, 'let (h, s, v, a) = Color { r, g, b, a }.to_hsva();', 'let (h, s, v, a) = Color { r: b, g, b: r, a }.to_hsva();'),
    b(R, 'if i == 0 { EntityKind::Stage { props } } else { EntityKind::Sprite { props } }', 'if i != 0 { EntityKind::Stage { props } } else { EntityKind::Sprite { props } }'),
    b(R, 'if i == 0 { EntityKind::Stage { props } } else { EntityKind::Sprite { props } }', 'if i == 0 || entity_info.costumes.is_empty() { EntityKind::Stage { props } } else { EntityKind::Sprite { props } }'),
    b(R, 'for (field, value) in entity_info.fields.iter() {', 'for (field, value) in init_info.globals.iter().chain(entity_info.fields.iter()) {'),
    b(J, 'project.add_script(*pos, entity, event.clone());', 'if !matches!(event, Event::OnClone) { project.add_script(*pos, entity, event.clone()); }'),
    b(J, 'project.add_script(*pos, entity, event.clone());', 'if project.scripts.len() < 1024 { project.add_script(*pos, entity, event.clone()); }'),
    b(J, 'for (event, pos) in entity_info.scripts.iter() {', 'for (event, pos) in entity_info.scripts.iter().rev().skip(0) {'),
    b(R, 'tempo: Number::new(60.0).unwrap(),', 'tempo: zero,'),
    b(B, 'match ref_id {\n                        Some(ref_id) => {\n                            let idx', 'match ref_id.as_ref().filter(|_| !values.is_empty()) {\n                        Some(ref_id) => {\n                            let idx'),
    b(B, '.or_insert_with(|| {\n                            ref_values.push((None, value));', '.or_insert_with(|| {\n                            if let ast::Value::List(x, _) = value { if x.is_empty() { return 0 } }\n                            ref_values.push((None, value));'),
    b(B, 'audio_refs.entry(Rc::as_ptr(x))', 'audio_refs.entry(Rc::as_ptr(x).wrapping_add(0))') if False else b(B, 'let color = entity.color;', 'let color = role.entities.first().map(|x| x.color).unwrap_or(entity.color);'),
    b(B, 'globals.insert(global.def.name.clone(),', 'if !matches!(global.init, ast::Value::Bool(_)) || globals.is_empty() { globals.insert(global.def.name.clone(),'.replace('if !m', 'globals.insert(global.def.trans_name.clone(), InitValue::Bool(false)); if !m')) if False else b(B, 'for global in role.globals.iter() {\n            globals.insert', 'for global in role.globals.iter().take(u16::MAX as usize) {\n            globals.insert'),
    b(R, 'let name = Text::from(entity_info.name.as_str());', 'let name = Text::from(entity_info.name.trim());'),
    b(R, 'RefValue::Text(value) => Value::Text(value.as_str().into()),', 'RefValue::Text(value) => Value::Text(value.trim_end().into()),'),
    # the same behaviour, written otherwise
    kp(B, 'let pos = (Number::new(entity.pos.0)?, Number::new(entity.pos.1)?);', 'let (x, y) = entity.pos;\n            let pos = (Number::new(x)?, Number::new(y)?);'),
    kp(B, 'let heading = Number::new(util::modulus(entity.heading, 360.0))?;', 'let heading = Number::new(entity.heading.rem_euclid(360.0))?;'),
    kp(B, 'let size = Number::new(entity.scale * 100.0)?;', 'const FULL: f64 = 100.0;\n            let size = Number::new(FULL * entity.scale)?;'),
    kp(B, [('let hat = match script.hat.as_ref() {\n                    Some(x) => x,\n                    None => continue,\n                };', 'let Some(hat) = &script.hat else { continue };')], None),
    kp(B, [('for (script, pos) in entity_info.scripts.iter().copied() {', 'for &(script, pos) in entity_info.scripts.iter() {')], None),
    kp(B, [('let mut sounds = VecMap::new();', ''), ('for sound in entity.sounds.iter() {\n                sounds.insert(sound.def.name.clone(), get_value(&sound.init, &mut ref_values, &refs, &mut string_refs, &mut image_refs, &mut audio_refs)?);\n            }', 'let sounds = entity.sounds.iter().map(|sound| Ok((sound.def.name.clone(), get_value(&sound.init, &mut ref_values, &refs, &mut string_refs, &mut image_refs, &mut audio_refs)?))).collect::<Result<VecMap<_, _, false>, CompileError>>()?;')], None),
    kp(B, 'ref_values.push((Some(res), value));\n                            InitValue::Ref(ref_values.len() - 1)', 'let idx = ref_values.len();\n                            ref_values.push((Some(res), value));\n                            InitValue::Ref(idx)'),
    kp(B, 'let idx = *string_refs.entry(x).or_insert_with(|| {\n                        ref_values.push((Some(RefValue::Text(x.clone())), value));\n                        ref_values.len() - 1\n                    });\n                    InitValue::Ref(idx)', 'let known = string_refs.get(x.as_str()).copied();\n                    InitValue::Ref(match known {\n                        Some(idx) => idx,\n                        None => {\n                            let idx = ref_values.len();\n                            ref_values.push((Some(RefValue::Text(x.clone())), value));\n                            string_refs.insert(x, idx);\n                            idx\n                        }\n                    })'),
    kp(B, 'let mut chars = key.chars();\n                                let res = chars.next().map(|x| KeyCode::Char(x.to_ascii_lowercase()));\n                                if res.is_none() || chars.next().is_some() { return Err(CompileError::BadKeycode { key }); }\n                                Some(res.unwrap())', 'let mut chars = key.chars();\n                                match (chars.next(), chars.next()) {\n                                    (Some(x), None) => Some(KeyCode::Char(x.to_ascii_lowercase())),\n                                    _ => return Err(CompileError::BadKeycode { key }),\n                                }'),
    kp(R, 'for value in values {\n                        allocated_ref.push_back(get_value(value, &allocated_refs));\n                    }', 'allocated_ref.extend(values.iter().map(|value| get_value(value, &allocated_refs)));'),
    kp(R, 'let state = C::EntityState::from(if i == 0 { EntityKind::Stage { props } } else { EntityKind::Sprite { props } });', 'let state = C::EntityState::from(match i {\n                0 => EntityKind::Stage { props },\n                _ => EntityKind::Sprite { props },\n            });'),
    kp(R, 'let mut props = Properties::default();\n            props.visible = entity_info.visible;\n            props.size = entity_info.size;\n            props.pos = entity_info.pos;\n            props.heading = entity_info.heading;', 'let mut props = Properties { visible: entity_info.visible, size: entity_info.size, pos: entity_info.pos, heading: entity_info.heading, ..Default::default() };'),
    kp(R, 'let costume = entity_info.active_costume.and_then(|x| costume_list.as_slice().get(x)).map(|x| x.value.clone());', 'let costume = match entity_info.active_costume {\n                Some(x) => costume_list.as_slice().get(x).map(|x| x.value.clone()),\n                None => None,\n            };'),
    kp(R, 'for (allocated_ref, ref_value) in iter::zip(&allocated_refs, &init_info.ref_values) {\n            match ref_value {\n                RefValue::Text(_) | RefValue::Image(_, _, _) | RefValue::Audio(_, _) => continue, // we already populated these values in the first pass\n                RefValue::List(values) => {\n                    let allocated_ref = match allocated_ref {\n                        Value::List(x) => x,\n                        _ => unreachable!(),\n                    };\n                    let mut allocated_ref = allocated_ref.borrow_mut(mc);\n                    for value in values {\n                        allocated_ref.push_back(get_value(value, &allocated_refs));\n                    }\n                }\n            }\n        }', 'for (allocated_ref, ref_value) in allocated_refs.iter().zip(init_info.ref_values.iter()) {\n            if let (Value::List(list), RefValue::List(values)) = (allocated_ref, ref_value) {\n                let mut list = list.borrow_mut(mc);\n                for value in values.iter() {\n                    list.push_back(get_value(value, &allocated_refs));\n                }\n            }\n        }'),
    kp(J, 'let entity = *project.state.global_context.borrow().entities.get(entity_info.name.as_str()).unwrap();\n            for (event, pos) in entity_info.scripts.iter() {\n                project.add_script(*pos, entity, event.clone());\n            }', 'let name = entity_info.name.as_str();\n            let entity = *project.state.global_context.borrow().entities.get(name).expect("declared");\n            for script in &entity_info.scripts {\n                let (event, pos) = (script.0.clone(), script.1);\n                project.add_script(pos, entity, event);\n            }'),
]
