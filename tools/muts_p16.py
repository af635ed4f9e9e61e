PR, PJ, CL, BC, SS, RT = 'process.rs', 'project.rs', 'cli.rs', 'bytecode.rs', 'std_system.rs', 'runtime.rs'
MUTS = [
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "let _ = system.send_reply(key, value);"),
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "system.send_reply(key, value).ok();"),
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "drop(system.send_reply(key, value));"),
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "if let Err(e) = system.send_reply(key, value) { let _ = e; }"),
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "if system.send_reply(key, value).is_err() { }"),
 ('break', 'P16', PR, "system.send_reply(key, value)?;", "if let Ok(()) = system.send_reply(key, value) { self.pos += 0; }"),
 ('keep', 'P16', PR, "system.send_reply(key, value)?;", "if let Err(e) = system.send_reply(key, value) { return Err(e); }"),
 ('keep', 'P16', PR, "system.send_reply(key, value)?;", "match system.send_reply(key, value) { Ok(()) => (), Err(e) => return Err(e.into()) }"),
 ('break', 'P16', PJ, """            Err(error) => {
                let proc = self.state.processes.remove(proc_key).unwrap();
                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                ProjectStep::Error { error, proc }
            }""", """            Err(_) => {
                let proc = self.state.processes.remove(proc_key).unwrap();
                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                { let _ = proc; ProjectStep::Normal }
            }"""),
 ('break', 'P16', PR, "res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() })", "res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() }).or_else(|_: ErrorCause<C, S>| Ok(Note::from_midi(0, false).unwrap()))"),
 ('break', 'P16', PR, "let s = value.as_text()?;\n        Note::from_name", "let s = value.as_text().unwrap_or_default();\n        Note::from_name"),
 ('keep', 'P16', PR, "let s = value.as_text()?;\n        Note::from_name", "let s = match value.as_text() { Ok(x) => x, Err(e) => return Err(e.into()) };\n        Note::from_name"),
 ('break', 'P16', PR, "let raw_index = index.as_number()?.get();", "let raw_index = index.as_number().map(|x| x.get()).unwrap_or(1.0);"),
 ('break', 'P16', CL, """                if let ProjectStep::Error { error, proc: _ } = &res {
                    print!("\\r\\n>>> runtime error: {:?}\\r\\n\\r\\n", error.cause);
                }
""", ""),
 ('break', 'P16', CL, "Err(e) => tee_println!(Some(&mut state) => \"\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n\"),", "Err(_) => (),"),
 ('break', 'P16', BC, "self.append_expr(value, entity)?;", "let _ = self.append_expr(value, entity);", 1),
 ('break', 'P16', BC, "(final_ins_pos[*p], *v)).collect())?;", "(final_ins_pos[*p], *v)).collect()); let locations = match locations { Ok(x) => x, Err(_) => Locations::condense(&Default::default())? };"),
 ('break', 'P16', SS, "Err(_) => return Err(CompactString::new(\"Failed to read response body\")),", "Err(_) => Default::default(),"),
 ('break', 'P16', RT, "x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?", "x.into_iter().filter_map(|x| SimpleValue::from_json(x).ok()).collect()"),
 ('break', 'P16', RT, "x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?", "x.into_iter().flat_map(SimpleValue::from_json).collect()"),
 ('break', 'P16', RT, "x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?", "x.into_iter().map(SimpleValue::from_json).flatten().collect()"),
 ('break', 'P16', RT, "x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?", "{ let mut v = vec![]; for y in x { if let Ok(y) = SimpleValue::from_json(y) { v.push(y); } } v }"),
 ('keep', 'P16', RT, "x.into_iter().map(SimpleValue::from_json).collect::<Result<_,_>>()?", "{ let mut v = vec![]; for y in x { match SimpleValue::from_json(y) { Ok(y) => v.push(y), Err(e) => return Err(e), } } v }"),
]
