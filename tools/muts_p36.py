
R, X = 'runtime.rs', 'process.rs'
MUTS = [
    ('break', 'P36', X, "let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));", "let res = Note::from_midi(vv as u8, false);"),
    ('break', 'P36', X, "let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));", "let res = if vv < 0 { None } else { Note::from_midi(vv as u8, false) };"),
    ('break', 'P36', X, "let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));", "let res = Note::from_midi(u8::try_from(vv).unwrap(), false);"),
    ('break', 'P36', X, "        if index < 1 || index > len as i64 {", "        if index > len as i64 {"),
    ('break', 'P36', X, "        let index = raw_index as i64;\n        if index as f64 != raw_index { return Err(ErrorCause::IndexNotInteger { index: raw_index }) }\n        if index < 1 || index > len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(index as usize - 1)", "        let index = raw_index as i64;\n        if index as f64 != raw_index { return Err(ErrorCause::IndexNotInteger { index: raw_index }) }\n        let zero_based = index - 1;\n        if zero_based < 0 || zero_based >= len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(zero_based as usize)"),
    ('break', 'P36', X, "to_arbitrary_ms()?.saturating_add(ms as u64)", "to_arbitrary_ms()? + ms as u64"),
    ('break', 'P36', X, "to_arbitrary_ms()?.saturating_add(ms as u64)", "to_arbitrary_ms()?.wrapping_add(ms as u64)"),
    ('break', 'P36', X, "to_arbitrary_ms()?.saturating_add(ms as u64)", "to_arbitrary_ms()?.checked_add(ms as u64).unwrap()"),
    ('break', 'P36', X, " && a >= i64::MIN as f64 && b < i64::MAX as f64 {", " && b < i64::MAX as f64 {"),
    ('break', 'P36', X, " && a >= i64::MIN as f64 && b < i64::MAX as f64 {", " && a >= i64::MIN as f64 {"),
    ('break', 'P36', X, " && a >= i64::MIN as f64 && b < i64::MAX as f64 {", " && a >= i64::MIN as f64 && b <= i64::MAX as f64 {"),
    ('break', 'P36', X, "                if fnum < 0.0 || fnum > u32::MAX as f64 { return Err(ErrorCause::InvalidUnicode { value: fnum }) }\n                let num = fnum as u32;\n                if num as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }", "                let num = fnum as u32;"),
    ('break', 'P36', X, "                let num = fnum as u32;\n                if num as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }", "                let num = fnum as i64 as u8 as u32;"),
    ('break', 'P36', X, "                    if dim < 0.0 || dim > usize::MAX as f64 { return Err(ErrorCause::InvalidSize { value: dim }) }\n                    let int_dim = dim as usize;\n                    if int_dim as f64 != dim { return Err(ErrorCause::InvalidSize { value: dim }) }", "                    let int_dim = dim as usize;"),
    ('break', 'P36', X, "                    let int_dim = dim as usize;\n", "                    let int_dim = dim as i64 as usize;\n", ),
    ('break', 'P36', R, "(value.get() as u32).to_be_bytes()", "(value.get() as i64 as u32).to_be_bytes()"),
    ('break', 'P36', R, "octave.checked_mul(12)?.checked_add(21 + note + delta)?", "octave * 12 + (21 + note + delta)"),
    ('break', 'P36', R, "octave.checked_mul(12)?.checked_add(21 + note + delta)?", "octave.wrapping_mul(12).wrapping_add(21 + note + delta)"),
    ('break', 'P36', R, "octave = octave.checked_sub(1)?;", "octave -= 1;"),
    ('break', 'P36', R, "Self::from_midi(u8::try_from(value).ok()?, natural)", "Self::from_midi(value as u8, natural)"),
    ('break', 'P36', R, "Self::from_midi(u8::try_from(value).ok()?, natural)", "if value < 0 { return None }\n        Self::from_midi((value % 256) as u8, natural).filter(|_| value < 1 << 20).or(Self::from_midi(value as u8, natural))"),
    ('break', 'P36', R, "if val < 0x80 { Some(Self(", "if val <= 0x80 { Some(Self("),
    ('break', 'P36', X, "|a, b| a.saturating_mul(b.borrow().len())", "|a, b| a * b.borrow().len()"),
    # behaviour-preserving
    ('keep', 'P36', X, "        if index < 1 || index > len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(index as usize - 1)", "        if !(1..=len as i64).contains(&index) { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok((index - 1) as usize)"),
    ('keep', 'P36', X, "            if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }\n            let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));", "            if vv as f64 != v { return Err(ErrorCause::NoteNotInteger { note: v }); }\n            let res = match u8::try_from(vv) { Ok(x) => Note::from_midi(x, false), Err(_) => None };"),
    ('keep', 'P36', X, "let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));", "let res = if (0..128).contains(&vv) { Note::from_midi(vv as u8, false) } else { None };"),
    ('keep', 'P36', X, "                let ms = self.value_stack.pop().unwrap().as_number()?.get() * 1000.0;", "                let secs = self.value_stack.pop().unwrap().as_number()?.get();\n                let ms = secs * 1000.0;"),
    ('keep', 'P36', X, "to_arbitrary_ms()?.saturating_add(ms as u64)", "to_arbitrary_ms()?.checked_add(ms as u64).unwrap_or(u64::MAX)"),
    ('keep', 'P36', X, "                    if dim < 0.0 || dim > usize::MAX as f64 { return Err(ErrorCause::InvalidSize { value: dim }) }\n                    let int_dim = dim as usize;\n                    if int_dim as f64 != dim { return Err(ErrorCause::InvalidSize { value: dim }) }\n                    dims.push(int_dim);", "                    let int_dim = dim as usize;\n                    if dim < 0.0 || dim > usize::MAX as f64 || int_dim as f64 != dim { return Err(ErrorCause::InvalidSize { value: dim }) }\n                    dims.push(int_dim);"),
    ('keep', 'P36', R, "(value.get() as u32).to_be_bytes()", "(value.get().clamp(0.0, u32::MAX as f64) as u32).to_be_bytes()"),
    ('keep', 'P36', R, "if val < 0x80 { Some(Self(if natural { 0x80 } else { 0 } | val)) } else { None }", "let flag = if natural { 0x80 } else { 0 };\n        match val {\n            0..=0x7f => Some(Self(val | flag)),\n            _ => None,\n        }"),
    ('keep', 'P36', X, "                let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());\n                if a > b { (a, b) = (b, a); }\n                Number::new(b - a)?;", "                let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());\n                if b < a { core::mem::swap(&mut a, &mut b); }\n                Number::new(b - a)?;"),
    ('keep', 'P36', R, "        let value = octave.checked_mul(12)?.checked_add(21 + note + delta)?;\n        Self::from_midi(u8::try_from(value).ok()?, natural)", "        let base = octave.checked_mul(12)?;\n        let value = base.checked_add(21 + note + delta)?;\n        match u8::try_from(value) {\n            Ok(value) => Self::from_midi(value, natural),\n            Err(_) => None,\n        }"),
    ('keep', 'P36', X, "                if fnum < 0.0 || fnum > u32::MAX as f64 { return Err(ErrorCause::InvalidUnicode { value: fnum }) }\n                let num = fnum as u32;\n                if num as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }", "                let num = fnum as u32;\n                if num as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }"),
]
