MUTS = [
('break', 'P01', 'bytecode.rs', "24 => read_prefixed!(Instruction::ToBool),\n            25 => read_prefixed!(Instruction::ToNumber),", "25 => read_prefixed!(Instruction::ToBool),\n            24 => read_prefixed!(Instruction::ToNumber),"),
('break', 'P01', 'bytecode.rs', "Instruction::PlaySound { blocking: true } => append_prefixed!(127)", "Instruction::PlaySound { blocking: true } => append_prefixed!(128)"),
('break', 'P01', 'bytecode.rs', "Instruction::UnknownBlock { name, args } => append_prefixed!(141: move str name, args)", "Instruction::UnknownBlock { name, args } => append_prefixed!(141: args, move str name)"),
('break', 'P01', 'bytecode.rs', "debug_assert!(val <= 0x7f);\n    out.push(val as u8);", "out.push(val as u8 & 0x3f);"),
('break', 'P01', 'bytecode.rs', "let mut blocks = ((64 - val.leading_zeros() as usize + 6) / 7).max(1);", "let mut blocks = ((64 - val.leading_zeros() as usize + 6) / 7).clamp(1, 9);"),
('break', 'P01', 'bytecode.rs', "let mut blocks = ((64 - val.leading_zeros() as usize + 6) / 7).max(1);", "let mut blocks = ((64 - val.leading_zeros() as usize + 6) / 7).max(1).min(9);"),
('break', 'P01', 'bytecode.rs', "val = (val << 7) | (b & 0x7f) as u64;", "val = (val << 7) | (b & 0x3f) as u64;"),
('break', 'P01', 'bytecode.rs', "(if raw & 1 == 0 { v } else { !v } as i32, aft)", "(if raw & 1 == 0 { v as i32 } else { -(v as i32) }, aft)"),
('break', 'P01', 'bytecode.rs', "(VariadicLen::Fixed(x - 1), aft)", "(VariadicLen::Fixed(x), aft)"),
('break', 'P01', 'bytecode.rs', "let [a, r, g, b] = res;", "let [r, g, b, a] = res;"),
('break', 'P01', 'bytecode.rs', "(f64::from_bits(v.swap_bytes()), aft)", "(f64::from_bits(v), aft)"),
('keep', 'P01', 'bytecode.rs', [("(f64::from_bits(v.swap_bytes()), aft)", "(f64::from_bits(v), aft)"), ("BinaryWrite::append(&val.to_bits().swap_bytes(), code, data, relocate_info)", "BinaryWrite::append(&val.to_bits(), code, data, relocate_info)")], None),
('keep', 'P01', 'bytecode.rs', "let v: u64 = ((*val) as u64) << 1;\n        BinaryWrite::append(&if v & 0x8000000000000000 == 0 { v } else { !v }, code, data, relocate_info)", "let wide = *val as i64;\n        let zigzag = ((wide << 1) ^ (wide >> 63)) as u64;\n        BinaryWrite::append(&zigzag, code, data, relocate_info)"),
('keep', 'P01', 'bytecode.rs', "    for &b in &data[start..] {\n        aft += 1;\n        if b & 0x80 == 0 { break }\n    }\n    for &b in data[start..aft].iter().rev() {\n        val = (val << 7) | (b & 0x7f) as u64;\n    }", "    let mut shift = 0;\n    loop {\n        let b = data[aft];\n        aft += 1;\n        val |= ((b & 0x7f) as u64) << shift;\n        shift += 7;\n        if b & 0x80 == 0 { break }\n    }"),
('keep', 'P01', 'bytecode.rs', "        let Color { r, g, b, a } = *val;\n        code.extend_from_slice(&[a, r, g ,b]);", "        code.push(val.a);\n        code.push(val.r);\n        code.push(val.g);\n        code.push(val.b);"),
('keep', 'P01', 'bytecode.rs', "        let mut res = [0u8; 4];\n        res[..].copy_from_slice(&code[start..start + 4]);\n        let [a, r, g, b] = res;\n        (Color { r, g, b, a }, start + 4)", "        (Color { a: code[start], r: code[start + 1], g: code[start + 2], b: code[start + 3] }, start + 4)"),
('keep', 'P01', 'bytecode.rs', "        match BinaryRead::read(code, data, start) {\n            (0, aft) => (VariadicLen::Dynamic, aft),\n            (x, aft) => (VariadicLen::Fixed(x - 1), aft),\n        }", "        let (x, aft) = <usize as BinaryRead>::read(code, data, start);\n        (if x == 0 { VariadicLen::Dynamic } else { VariadicLen::Fixed(x - 1) }, aft)"),
('keep', 'P01', 'bytecode.rs', "            24 => read_prefixed!(Instruction::ToBool),", "            24 => { let ins = Instruction::ToBool; (ins, 1 + start) }"),
('break', 'P01', 'bytecode.rs', "append_prefixed!(14)", "{ code.push(14); code.push(0) }"),
('break', 'P01', 'bytecode.rs', "Instruction::Jump { to } => append_prefixed!(82: move to)", "Instruction::Jump { to } => append_prefixed!(82: to)"),
('break', 'P01', 'bytecode.rs', "append_prefixed!(87: move pos, params, move str tokens)", "append_prefixed!(87: move pos, move params, move str tokens)"),
('break', 'P01', 'bytecode.rs', "                relocate_info.push(RelocateInfo::Data { code_addr: code.len() });\n                encode_u64(pool_index as u64, code, Some(MAX_U64_ENCODED_BYTES));", "                encode_u64(pool_index as u64, code, Some(MAX_U64_ENCODED_BYTES));\n                relocate_info.push(RelocateInfo::Data { code_addr: code.len() });"),
('break', 'P01', 'bytecode.rs', "                BinaryWrite::append(&$val.len(), code, data, relocate_info);", "                BinaryWrite::append(&$val.chars().count(), code, data, relocate_info);"),
]
