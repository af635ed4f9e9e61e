R, P, B, J = 'runtime.rs', 'process.rs', 'bytecode.rs', 'project.rs'
UP = """                            if a + 1.0 == a { return Err(ErrorCause::InvalidSize { value: b - a }); } // too large to count in steps of one
"""
POP = """            match self.state.process_queue.pop_front() {
                None => {
                    debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
                    return ProjectStep::Idle;
                }
                Some(proc_key) => if let Some(proc) = self.state.processes.get_mut(proc_key) { break (proc_key, proc) }
            }
"""
DEC = """    let (mut val, mut aft) = (0, start);
    for &b in &data[start..] {
        aft += 1;
        if b & 0x80 == 0 { break }
    }
    for &b in data[start..aft].iter().rev() {
        val = (val << 7) | (b & 0x7f) as u64;
    }
    (val, aft)
"""
LOOK = """        loop {
            let (v, aft) = decode_u64(&self.value_data, start);
            if v == 0 {
                break;
            }

            start = aft;
"""
MUTS = [
    ('break', 'P44', P, UP, ""),
    ('break', 'P44', P, "a - 1.0 == a", "a + 1.0 == a"),
    ('break', 'P44', P, UP, UP.replace("return Err(ErrorCause::InvalidSize { value: b - a });", "a = b;")),
    ('break', 'P44', J, POP, POP.replace("{ break (proc_key, proc) }", "{ break (proc_key, proc) } else { self.state.process_queue.push_back(proc_key); }")),
    ('break', 'P44', B, "*final_ins_pos_update_iter.next().unwrap() -= total_shift;", "**final_ins_pos_update_iter.peek_mut().unwrap() -= total_shift;"),
    ('break', 'P44', R, "Some('0'..='9') => v.push(c.next().unwrap()),", "Some('0'..='9') => v.push(*c.peek().unwrap()),"),
    ('break', 'P44', P, "(None, None) => break Some(Ordering::Equal),\n                        (None", "(None, None) => (),\n                        (None") if False else
    ('break', 'P44', P, "(None, None) => break Some(Ordering::Equal),", "(None, None) => if cache.is_empty() { break Some(Ordering::Equal) },"),
    ('break', 'P44', B, "            start = aft;\n            if !first", "            let _ = aft;\n            if !first"),
    ('break', 'P44', B, "            if v == 0 {\n                break;\n            }\n", "            if v == 1 {\n                break;\n            }\n"),
    ('break', 'P44', B, "ast::ExprKind::ListCsv { value } => self.append_simple_ins(entity, &[value], Instruction::ListCsv)?", "ast::ExprKind::ListCsv { .. } => self.append_simple_ins(entity, &[expr], Instruction::ListCsv)?"),
    ('break', 'P44', P, "Ok(reshape_impl(mc, &mut src.iter().cycle(), dims))", "if dims.len() > 60 { return Ok(Value::from(Gc::new(mc, RefLock::new(src.iter().cycle().cloned().collect::<VecDeque<_>>())))) }\n        Ok(reshape_impl(mc, &mut src.iter().cycle(), dims))"),
    ('break', 'P44', B, "        self.state ^= true;\n        Some(res)", "        self.state = self.state || !res.is_empty();\n        Some(res)") if False else
    ('break', 'P44', B, "        (res, self.src) = self.src.split_at(p);\n        self.state ^= true;", "        (res, self.src) = self.src.split_at(p);\n        if p != 0 { self.state ^= true; }"),
    ('keep', 'P44', P, UP + "                            a += 1.0;", "                            let next = a + 1.0;\n                            if next == a { return Err(ErrorCause::InvalidSize { value: b - a }); }\n                            a = next;"),
    ('keep', 'P44', P, "                        while a <= b {\n", "                        loop {\n                            if a > b { break }\n"),
    ('keep', 'P44', J, "let (proc_key, proc) = loop {\n" + POP + "        };", "let (proc_key, proc) = loop {\n            let Some(proc_key) = self.state.process_queue.pop_front() else { return ProjectStep::Idle };\n            if self.state.processes.get(proc_key).is_none() { continue }\n            break (proc_key, self.state.processes.get_mut(proc_key).unwrap());\n        };"),
    ('keep', 'P44', J, "            for i in 0..self.scripts.len() {\n                if let Event::NetworkMessage", "            let mut k = 0;\n            while k < self.scripts.len() {\n                let i = k;\n                k += 1;\n                if let Event::NetworkMessage"),
    ('keep', 'P44', B, DEC, "    let (mut val, mut aft, mut shift) = (0u64, start, 0u32);\n    loop {\n        let b = data[aft];\n        aft += 1;\n        if shift < 64 { val |= ((b & 0x7f) as u64) << shift; }\n        shift += 7;\n        if b & 0x80 == 0 { break }\n    }\n    (val, aft)\n"),
    ('keep', 'P44', B, LOOK, "        loop {\n            let (v, aft) = decode_u64(&self.value_data, start);\n            start = aft;\n            if v == 0 { break }\n"),
    ('keep', 'P44', P, "(Some(_), None) => break Some(Ordering::Greater),", "(Some(_), None) => return Ok(Some(Ordering::Greater)),"),
    ('keep', 'P44', R, "                            match c.peek() {\n                                Some('0'..='9') => v.push(c.next().unwrap()),\n                                _ => break,\n                            }", "                            let Some(&d) = c.peek() else { break };\n                            if !d.is_ascii_digit() { break }\n                            c.next();\n                            v.push(d);"),
    ('keep', 'P44', B, "*final_ins_pos_update_iter.next().unwrap() -= total_shift;", "if let Some(x) = final_ins_pos_update_iter.next() { *x -= total_shift; }"),
]
