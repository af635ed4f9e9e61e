P = 'process.rs'
MUTS = [
    ('break', 'P12', P, "if index < 1 || index > len as i64 {", "if index < 0 || index > len as i64 {"),
    ('break', 'P12', P, "if index < 1 || index > len as i64 {", "if index < 1 || index > len as i64 + 1 {"),
    ('break', 'P12', P, "if index as f64 != raw_index { return Err(ErrorCause::IndexNotInteger { index: raw_index }) }", ""),
    ('break', 'P12', P, "Ok(index as usize - 1)", "Ok((index as usize - 1) % len)\n        .map(|x| x.max(0))".replace("\n        ", "")),
    ('break', 'P12', P, "if len == 0 { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n        Ok(system.rand(0..len))", "Ok(system.rand(0..len))"),
    ('break', 'P12', P, "Ok(system.rand(0..len))", "Ok(system.rand(0..len + 1))"),
    ('break', 'P12', P, "Ok(system.rand(0..len))", "Ok(system.rand(0..len.max(2) - 1))"),
    ('break', 'P12', P, "dest.insert(ops::prep_index(index, len)?);", "dest.insert(ops::prep_index(index, len + 1)?);"),
    ('break', 'P12', P, "set_impl(value, len, dest, cache)?;", "set_impl(value, values.borrow().len(), dest, cache)?;"),
    ('break', 'P12', P, "ops::prep_index_set(&index, len + 1)?;", "ops::prep_index_set(&index, len + 2)?;"),
    ('break', 'P12', P, "ops::prep_index_set(&index, len + 1)?;", "ops::prep_index_set(&index, len)?;"),
    ('break', 'P12', P, "for index in index_set.into_iter().rev() {\n                    list.insert", "for index in index_set.into_iter() {\n                    list.insert"),
    ('break', 'P12', P, "for index in index_set.into_iter().rev() {\n                    list.remove", "for index in index_set.into_iter() {\n                    list.remove"),
    ('break', 'P12', P, "let index = ops::prep_rand_index(&*system, list.len() + 1)?;", "let index = ops::prep_rand_index(&*system, list.len() + 2)?;"),
    ('break', 'P12', P, "let index = ops::prep_rand_index(&*system, list.len())?;\n                self", "let index = ops::prep_rand_index(&*system, list.len() + 1)?;\n                self"),
    ('break', 'P12', P, "let index = ops::prep_rand_index(&*system, list.len())?;\n                list[index] = value;", "let index = ops::prep_rand_index(&*system, list.capacity())?;\n                list[index] = value;"),
    ('break', 'P12', P, "if list.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }); }\n                *list.back_mut()", "*list.back_mut()"),
    ('break', 'P12', P, "if list.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n                list.pop_back().unwrap();", "if list.len() == 1 { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n                list.pop_back().unwrap();"),
    ('break', 'P12', P, "let index_set = ops::prep_index_set(&index, len)?; // index might contain (or be) the list itself, so don't borrow mutably yet\n                let mut list = list.borrow_mut(mc);\n                for index in index_set.into_iter().rev()", "let index_set = ops::prep_index_set(&index, len)?;\n                let mut list = list.borrow_mut(mc);\n                if index_set.len() > 1 { list.pop_front(); }\n                for index in index_set.into_iter().rev()"),
    ('break', 'P12', P, "let index = prep_index(a, string.graphemes(true).count())?;", "let index = prep_index(a, string.chars().count())?;"),
    ('break', 'P12', P, "let index = prep_index(a, string.graphemes(true).count())?;", "let index = prep_index(a, string.len())?;"),
    ('break', 'P12', P, "let index = prep_index(a, string.graphemes(true).count())?;", "let index = prep_index(a, string.graphemes(false).count())?;"),
    ('break', 'P12', P, "let i = prep_rand_index(system, x.graphemes(true).count())?;", "let i = prep_rand_index(system, x.len())?;"),
    ('break', 'P12', P, "Ok(list[prep_index(x, list.len())?].clone())", "Ok(list.get(x.as_number()?.get() as usize - 1).cloned().unwrap_or_else(|| Text::default().into()))"),
    ('break', 'P12', P, "Ok(list[prep_index(x, list.len())?].clone())", "Ok(list[prep_index(x, list.capacity())?].clone())"),
    ('break', 'P12', P, "if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }", "if target.len() > 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }", 1),
    ('keep', 'P12', P, "if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }", "let got = target.len();\n                    if got < 2 || got > 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got }); }", 1),
    ('keep', 'P12', P, "if index < 1 || index > len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(index as usize - 1)", "if (1..=len as i64).contains(&index) { Ok(index as usize - 1) } else { Err(ErrorCause::IndexOutOfBounds { index, len }) }"),
    ('keep', 'P12', P, "if index < 1 || index > len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(index as usize - 1)", "match usize::try_from(index) {\n            Ok(i) if i >= 1 && i <= len => Ok(i - 1),\n            _ => Err(ErrorCause::IndexOutOfBounds { index, len }),\n        }"),
    ('keep', 'P12', P, "if index < 1 || index > len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(index as usize - 1)", "let pos = index - 1;\n        if pos < 0 || pos >= len as i64 { return Err(ErrorCause::IndexOutOfBounds { index, len }) }\n        Ok(pos as usize)"),
    ('keep', 'P12', P, "for index in index_set.into_iter().rev() {\n                    list.remove(index);\n                }", "let mut index_set = index_set;\n                while let Some(index) = index_set.pop_last() {\n                    list.remove(index);\n                }"),
    ('keep', 'P12', P, "for index in index_set.into_iter().rev() {\n                    list.insert(index, val.clone());\n                }", "for index in index_set.iter().rev() {\n                    list.insert(*index, val.clone());\n                }"),
    ('keep', 'P12', P, "let len = list.borrow().len();\n                let index_set = ops::prep_index_set(&index, len)?; // index might contain (or be) the list itself, so don't borrow mutably yet\n                let mut list = list.borrow_mut(mc);\n                for index in index_set {\n                    list[index] = value.clone();\n                }", "let index_set = ops::prep_index_set(&index, list.borrow().len())?;\n                let mut list = list.borrow_mut(mc);\n                for index in index_set {\n                    *list.get_mut(index).unwrap() = value.clone();\n                }"),
    ('keep', 'P12', P, "if list.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n                list.pop_back().unwrap();", "if list.pop_back().is_none() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }"),
    ('keep', 'P12', P, "if list.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }); }\n                *list.back_mut().unwrap() = value;", "match list.back_mut() {\n                    Some(x) => *x = value,\n                    None => return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }),\n                }"),
    ('keep', 'P12', P, "let index = prep_index(a, string.graphemes(true).count())?;\n                Ok(Text::from(string.graphemes(true).nth(index).unwrap()).into())", "let letters: Vec<&str> = string.graphemes(true).collect();\n                let index = prep_index(a, letters.len())?;\n                Ok(Text::from(letters[index]).into())"),
    ('keep', 'P12', P, "let index = ops::prep_rand_index(&*system, list.len())?;\n                self.value_stack.push(list[index].clone());", "let item = ops::prep_rand_index(&*system, list.len()).map(|i| list[i].clone())?;\n                self.value_stack.push(item);"),
    ('keep', 'P12', P, "        if len == 0 { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n        Ok(system.rand(0..len))", "        match len {\n            0 => Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }),\n            n => Ok(system.rand(0..n)),\n        }"),
    ('keep', 'P12', P, "    pub(super) fn prep_rand_index<", "    fn random_item<'gc, C: CustomTypes<S>, S: System<C>>(system: &S, list: &VecDeque<Value<'gc, C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {\n        let i = prep_rand_index(system, list.len())?;\n        Ok(list[i].clone())\n    }\n    pub(super) fn pick<'gc, C: CustomTypes<S>, S: System<C>>(system: &S, list: &VecDeque<Value<'gc, C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { random_item(system, list) }\n    pub(super) fn prep_rand_index<"),
]
