R, X, P, S = 'runtime.rs', 'process.rs', 'project.rs', 'std_system.rs'
MUTS = [
    ('break', 'P10', X, "                let len = list.borrow().len();\n                let index_set = ops::prep_index_set(&index, len + 1)?; // index might contain (or be) the list itself, so don't borrow mutably yet\n                let mut list = list.borrow_mut(mc);", '                let mut list = list.borrow_mut(mc);\n                let index_set = ops::prep_index_set(&index, list.len() + 1)?;'),
    ('break', 'P10', X, "                let len = list.borrow().len();\n                let index_set = ops::prep_index_set(&index, len)?; // index might contain (or be) the list itself, so don't borrow mutably yet\n                let mut list = list.borrow_mut(mc);\n                for index in index_set {", '                let mut list = list.borrow_mut(mc);\n                let len = list.len();\n                for index in ops::prep_index_set(&index, len)? {'),
    ('break', 'P10', X, '                drop(global_context_raw);\n                self.defer = Some(Defer::Command {\n                    key: system.perform_command(mc, Command::StopSounds, self)?,', '                self.defer = Some(Defer::Command {\n                    key: system.perform_command(mc, Command::StopSounds, self)?,'),
    ('break', 'P10', X, '                    drop(entity_raw);\n                    drop(global_context_raw);', '                    drop(global_context_raw);', 0),
    ('break', 'P10', X, '                            drop(entity_raw);\n                            drop(global_context_raw);', '                            drop(global_context_raw);'),
    ('break', 'P10', X, '                    let x = x.borrow();\n                    let real_res', '                    let x = x.borrow_mut(mc);\n                    let real_res'),
    ('break', 'P10', X, 'let (a, b) = (a.borrow(), b.borrow());\n                        let real_res', 'let (a, b) = (a.borrow_mut(mc), b.borrow());\n                        let real_res'),
    ('break', 'P10', X, '        let list = list.borrow();\n        unary_op_impl(mc, system, index', '        let list = list.borrow_mut(mc);\n        unary_op_impl(mc, system, index'),
    ('break', 'P10', X, 'let target = target_cell.borrow();', 'let target = target_cell.borrow_mut(mc);'),
    ('break', 'P10', X, '                    drop(target);\n                    drop(global_context_raw);', '                    drop(global_context_raw);', 0),
    ('break', 'P10', X, '                    drop(target);\n                    drop(global_context_raw);', '                    drop(global_context_raw);', 1),
    ('break', 'P10', X, '[first, rest @ ..] => for item in first.borrow().iter() {\n                    partial.push_back(item.clone());', '[first, rest @ ..] => for item in first.borrow_mut(mc).iter() {\n                    partial.push_back(item.clone());'),
    ('break', 'P10', X, '            let mut closure = closure.borrow_mut(mc);\n            if closure.params.len() != args {', '            let mut closure = closure.borrow_mut(mc);\n            if closure.params.len() != args || values.as_slice().iter().any(|x| x.as_closure().map(|x| x.borrow().params.is_empty() && args > 200).unwrap_or(false)) {'),
    ('break', 'P10', X, '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let val = self.value_stack.pop().unwrap();\n                list.borrow_mut(mc).push_back(val);', '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let val = self.value_stack.pop().unwrap();\n                let mut list = list.borrow_mut(mc);\n                if let Value::List(x) = &val { list.reserve(x.borrow().len()); }\n                list.push_back(val);'),
    ('break', 'P10', X, '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let list = list.borrow();\n                let index = ops::prep_rand_index(&*system, list.len())?;', '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let list = core::mem::ManuallyDrop::new(list.borrow());\n                let index = ops::prep_rand_index(&*system, list.len())?;'),
    ('break', 'P10', X, '        let system = self.global_context.borrow().system.clone();\n        match self.defer.take() {', '        let globals_guard = self.global_context.borrow();\n        let system = globals_guard.system.clone();\n        match self.defer.take() {'),
    ('break', 'P10', X, '                let entity = self.call_stack.last().unwrap().entity.borrow();\n                self.value_stack.push(Value::List(Gc::new(mc, RefLock::new(entity.costume_list', '                let entity = self.call_stack.last().unwrap().entity.borrow_mut(mc);\n                let _keep = self.call_stack.first().unwrap().entity.borrow();\n                self.value_stack.push(Value::List(Gc::new(mc, RefLock::new(entity.costume_list'),
    ('break', 'P10', S, '            let (fields, original) = {\n                let entity = entity.borrow_mut(mc);\n                (entity.fields.clone(), entity.original)\n            };\n            check_symbols(mc, &fields);\n            if let Some(original) = original {', '            let entity = entity.borrow_mut(mc);\n            check_symbols(mc, &entity.fields);\n            if let Some(original) = entity.original {'),
    ('break', 'P10', P, 'let msg = self.state.global_context.borrow().system.receive_message();', 'let gc = self.state.global_context.borrow_mut(mc);\n        let msg = gc.system.receive_message();\n        for proc in self.state.processes.iter() { let _ = proc.1.global_context.borrow().timer_start; }'),
    ('keep', 'P10', X, '                let mut list = list.borrow_mut(mc);\n                for index in index_set {\n                    list[index] = value.clone();\n                }', '                for index in index_set {\n                    list.borrow_mut(mc)[index] = value.clone();\n                }'),
    ('keep', 'P10', X, "                let len = list.borrow().len();\n                let index_set = ops::prep_index_set(&index, len + 1)?; // index might contain (or be) the list itself, so don't borrow mutably yet\n                let mut list = list.borrow_mut(mc);\n                for index in index_set.into_iter().rev() {\n                    list.insert(index, val.clone());\n                }", "                let index_set = { let list = list.borrow(); ops::prep_index_set(&index, list.len() + 1)? };\n                fn put<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, list: Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>, index: usize, val: Value<'gc, C, S>) { list.borrow_mut(mc).insert(index, val); }\n                for index in index_set.into_iter().rev() {\n                    put(mc, list, index, val.clone());\n                }"),
    ('keep', 'P10', X, '                    let target = target.borrow();\n                    if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }\n                    let (x, y) = (target[0].as_number()?, target[1].as_number()?);\n\n                    drop(target);\n', '                    let (x, y) = {\n                        let target = target.borrow();\n                        if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }\n                        (target[0].as_number()?, target[1].as_number()?)\n                    };\n', 1),
    ('keep', 'P10', X, '                let mut list = list.borrow_mut(mc);\n                if list.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }); }\n                *list.back_mut().unwrap() = value;', '                if list.borrow().is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }); }\n                match list.borrow_mut(mc).back_mut() {\n                    Some(last) => *last = value,\n                    None => unreachable!(),\n                }'),
    ('keep', 'P10', X, '                        let res = as_list(&real_res).unwrap();\n                        let mut res = res.borrow_mut(mc);\n                        for (a, b) in iter::zip(&*a, &*b) {\n                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);\n                        }', '                        let res = as_list(&real_res).unwrap();\n                        for (a, b) in iter::zip(&*a, &*b) {\n                            let item = binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?;\n                            res.borrow_mut(mc).push_back(item);\n                        }'),
    ('keep', 'P10', X, '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let val = self.value_stack.pop().unwrap();\n                let mut list = list.borrow_mut(mc);\n\n                let index = ops::prep_rand_index(&*system, list.len() + 1)?;\n                list.insert(index, val);', '                let list = self.value_stack.pop().unwrap().as_list()?;\n                let val = self.value_stack.pop().unwrap();\n                let count = list.borrow().len();\n\n                let index = ops::prep_rand_index(&*system, count + 1)?;\n                list.borrow_mut(mc).insert(index, val);'),
    ('keep', 'P10', X, '            let mut closure = closure.borrow_mut(mc);\n            if closure.params.len() != args {\n                return Err(ErrorCause::ClosureArgCount { expected: closure.params.len(), got: args });\n            }', '            let expected = closure.borrow().params.len();\n            if expected != args {\n                return Err(ErrorCause::ClosureArgCount { expected, got: args });\n            }\n            let mut closure = closure.borrow_mut(mc);'),
    ('keep', 'P10', X, '                    let target = target.borrow();\n\n                    drop(global_context_raw);\n                    self.defer = Some(Defer::Command {\n                        key: system.perform_command(mc, Command::GotoEntity { target: &*target }, self)?,\n                        aft_pos,\n                    });', "                    let target = target.borrow();\n\n                    drop(global_context_raw);\n                    fn send<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, command: Command<'gc, '_, C, S>, proc: &mut Process<'gc, C, S>, aft_pos: usize) -> Result<(), ErrorCause<C, S>> {\n                        proc.defer = Some(Defer::Command { key: system.perform_command(mc, command, proc)?, aft_pos });\n                        Ok(())\n                    }\n                    send(mc, &*system, Command::GotoEntity { target: &*target }, self, aft_pos)?;"),
    ('break', 'P10', X, '                let y = self.value_stack.pop().unwrap().as_number()?;\n                let x = self.value_stack.pop().unwrap().as_number()?;\n\n                drop(global_context_raw);\n                self.defer = Some(Defer::Command {\n                    key: system.perform_command(mc, Command::GotoXY { x, y }, self)?,', '                let y = self.value_stack.pop().unwrap().as_number()?;\n                let x = self.value_stack.pop().unwrap().as_number()?;\n                let entity = self.call_stack.first().unwrap().entity;\n                let _entity = entity.borrow();\n\n                drop(global_context_raw);\n                self.defer = Some(Defer::Command {\n                    key: system.perform_command(mc, Command::GotoXY { x, y }, self)?,'),
]
