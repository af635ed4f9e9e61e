P, R = 'process.rs', 'runtime.rs'
MUTS = [
    ('break', 'P11', P, "Value::List(values) => if cache.insert(index.identity()) {\n                    for value in values.borrow().iter() {\n                        set_impl(value, len, dest, cache)?;\n                    }\n                }", "Value::List(values) => {\n                    for value in values.borrow().iter() {\n                        set_impl(value, len, dest, cache)?;\n                    }\n                }"),
    ('break', 'P11', P, "set_impl(value, len, dest, cache)?;", "set_impl(value, len, dest, &mut Default::default())?;"),
    ('break', 'P11', P, "if !cache.insert(key) { return Err(ErrorCause::CyclicValue) }\n                    for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }\n                    cache.remove(&key);", "for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }\n                    if !cache.insert(key) { return Err(ErrorCause::CyclicValue) }\n                    cache.remove(&key);"),
    ('break', 'P11', P, "                    for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }\n                    cache.remove(&key);", "                    for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }"),
    ('break', 'P11', P, "                    for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }\n                    cache.remove(&key);", "                    cache.remove(&key);\n                    for value in values.borrow().iter() {\n                        flatten_impl(value, dest, cache)?;\n                    }"),
    ('break', 'P11', P, "if !cache.insert(key) { return Err(ErrorCause::CyclicValue) }\n\n                let values", "if !cache.insert(key) && depth > 64 { return Err(ErrorCause::CyclicValue) }\n\n                let values"),
    ('break', 'P11', P, "                    dimensions_impl(value, depth + 1, res, cache)?;\n                }\n\n                cache.remove(&key);", "                    dimensions_impl(value, depth + 1, res, cache)?;\n                }\n"),
    ('break', 'P11', P, "                        cache.insert(cache_key, real_res.clone());\n                        let res = as_list(&real_res).unwrap();\n                        let mut res = res.borrow_mut(mc);\n                        for b in &*b {", "                        let res = as_list(&real_res).unwrap();\n                        let mut res = res.borrow_mut(mc);\n                        for b in &*b {"),
    ('break', 'P11', P, "                    cache.insert(cache_key, real_res.clone());\n                    let res = as_list(&real_res).unwrap();\n                    let mut res = res.borrow_mut(mc);\n                    for x in &*x {\n                        res.push_back(unary_op_impl(mc, system, x, cache, op_type, scalar_op)?);\n                    }", "                    let res = as_list(&real_res).unwrap();\n                    let mut res = res.borrow_mut(mc);\n                    for x in &*x {\n                        res.push_back(unary_op_impl(mc, system, x, cache, op_type, scalar_op)?);\n                    }\n                    cache.insert(cache_key, real_res.clone());"),
    ('break', 'P11', P, "if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, op_type, scalar_op)? }", "if matrix_mode { binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)? }"),
    ('break', 'P11', P, "            None => { cache.insert(key, None); }\n", "            None => (),\n"),
    ('break', 'P11', P, "            Some(None) => return Err(ErrorCause::CyclicValue),\n", "            Some(None) => (),\n"),
    ('break', 'P11', P, "        debug_assert_eq!(cache.get(&key).cloned(), Some(None));\n        *cache.get_mut(&key).unwrap() = Some(res);\n", ""),
    ('break', 'P11', P, "match cmp_impl(a, b, cache)? {", "match cmp_impl(a, b, &mut Default::default())? {"),
    ('break', 'P11', R, "                if !cache.insert(identity) { return write!(f, \"[...]\") }\n", "                cache.insert(identity);\n"),
    ('break', 'P11', R, "                debug_assert!(cache.contains(&identity));\n                cache.remove(&identity);\n                Ok(())", "                debug_assert!(cache.contains(&identity));\n                Ok(())"),
    ('break', 'P11', R, "                    print(val, f, style, cache)?;", "                    match style { FormatStyle::Debug => write!(f, \"{val:?}\")?, FormatStyle::Display => write!(f, \"{val}\")? }"),
    ('break', 'P11', R, "write!(f, \"Closure {:#08x}\", self.pos)", "write!(f, \"Closure {:#08x} {:?}\", self.pos, self.captures)"),
    ('break', 'P11', R, "if !cache.insert(identity) { return Err(ToSimpleError::Cyclic) }\n", ""),
    ('break', 'P11', R, "x.borrow().iter().map(|x| simplify(x, cache))", "x.borrow().iter().map(|x| x.to_simple())"),
    ('break', 'P11', R, "                    debug_assert!(cache.contains(&identity));\n                    cache.remove(&identity);\n                    res", "                    res"),
    ('keep', 'P11', P, "if !cache.insert(key) { return Err(ErrorCause::CyclicValue) }\n                    for", "if cache.contains(&key) { return Err(ErrorCause::CyclicValue) }\n                    cache.insert(key);\n                    for"),
    ('keep', 'P11', P, "Value::List(values) => if cache.insert(index.identity()) {\n                    for value in values.borrow().iter() {\n                        set_impl(value, len, dest, cache)?;\n                    }\n                }", "Value::List(values) => {\n                    if !cache.insert(index.identity()) { return Ok(()) }\n                    values.borrow().iter().try_for_each(|value| set_impl(value, len, dest, cache))?;\n                }"),
    ('keep', 'P11', P, "        match cache.get(&key) {\n            Some(Some(x)) => return Ok(*x),\n            Some(None) => return Err(ErrorCause::CyclicValue),\n            None => { cache.insert(key, None); }\n        }", "        if let Some(known) = cache.get(&key) {\n            return known.ok_or(ErrorCause::CyclicValue);\n        }\n        cache.insert(key, None);"),
    ('keep', 'P11', P, "        debug_assert_eq!(cache.get(&key).cloned(), Some(None));\n        *cache.get_mut(&key).unwrap() = Some(res);\n", "        cache.insert(key, Some(res));\n"),
    ('keep', 'P11', R, "let res = SimpleValue::List(x.borrow().iter().map(|x| simplify(x, cache)).collect::<Result<_,_>>()?);", "let mut vals = Vec::with_capacity(x.borrow().len());\n                    for x in x.borrow().iter() {\n                        vals.push(simplify(x, cache)?);\n                    }\n                    let res = SimpleValue::List(vals);"),
    ('keep', 'P11', P, "            if let Value::List(values) = value {\n                if depth == res.len() { res.push(0); }", "            let Value::List(values) = value else { return Ok(()) };\n            {\n                if depth == res.len() { res.push(0); }"),
    ('keep', 'P11', P, "            None => match as_list(x) {\n                Some(x) => {\n                    let x = x.borrow();", "            None => match as_list(x) {\n                Some(list) => {\n                    let x = list.borrow();"),
]
