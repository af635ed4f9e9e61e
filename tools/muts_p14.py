PR, BC = 'process.rs', 'bytecode.rs'
MK = "self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list\n"
MUTS = [
 ('break', 'P14', PR, """                let mut res = self.value_stack.pop().unwrap().as_list()?.borrow().clone();
                if res.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }
                res.pop_front().unwrap();
                self.value_stack.push(Gc::new(mc, RefLock::new(res)).into());""", """                let src = self.value_stack.pop().unwrap().as_list()?;
                let mut res = src.borrow_mut(mc);
                if res.is_empty() { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }
                res.pop_front().unwrap();
                self.value_stack.push(Gc::new(mc, RefLock::new(res.clone())).into());"""),
 ('break', 'P14', PR, """                let list = self.value_stack.pop().unwrap().as_list()?;
                self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into());""", """                let list = self.value_stack.pop().unwrap().as_list()?;
                if list.borrow().len() < 2 { self.value_stack.push(list.into()); }
                else { self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into()); }"""),
 ('break', 'P14', PR, """                self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into());""", """                list.borrow_mut(mc).make_contiguous().reverse();
                self.value_stack.push(list.into());"""),
 ('break', 'P14', PR, """                    (Some(a), None) => {
                        let a = a.borrow();
                        let real_res: Value<C, S> = Gc::new(mc, RefLock::new(VecDeque::with_capacity(a.len()))).into();
                        cache.insert(cache_key, real_res.clone());
                        let res = as_list(&real_res).unwrap();
                        let mut res = res.borrow_mut(mc);
                        for a in &*a {
                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                        }
                        real_res
                    }""", """                    (Some(a), None) => {
                        cache.insert(cache_key, a.into());
                        let items: Vec<_> = a.borrow().iter().cloned().collect();
                        for (i, x) in items.iter().enumerate() {
                            let r = binary_op_impl(mc, system, x, b, matrix_mode, cache, op_type, scalar_op)?;
                            a.borrow_mut(mc)[i] = r;
                        }
                        a.into()
                    }"""),
 ('break', 'P14', BC, "                self.append_expr(items, entity)?;\n                " + MK, "                self.append_expr(items, entity)?;\n"),
 ('break', 'P14', BC, MK, "", 2),
 ('break', 'P14', PR, """                        let src = self.value_stack.pop().unwrap().as_list()?;
                        let src = src.borrow();
                        combine(mc, &*system, &mut src.iter())?""", """                        let src = self.value_stack.pop().unwrap().as_list()?;
                        if let VariadicOp::MakeList = op { src.into() } else {
                        let src = src.borrow();
                        combine(mc, &*system, &mut src.iter())? }"""),
 ('break', 'P14', PR, "                    VariadicLen::Dynamic => self.value_stack.pop().unwrap().as_list()?.borrow().iter().cloned().collect(),", "                    VariadicLen::Dynamic => self.value_stack.pop().unwrap().as_list()?.borrow_mut(mc).drain(..).collect(),", 1),
 ('break', 'P14', PR, "        let indices = cmp", "        let indices = cmp") if False else
 ('keep', 'P14', PR, """                let list = self.value_stack.pop().unwrap().as_list()?;
                let val = self.value_stack.pop().unwrap();
                list.borrow_mut(mc).push_back(val);""", """                let list = self.value_stack.pop().unwrap().as_list()?;
                let val = self.value_stack.pop().unwrap();
                fn add<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, list: Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>, val: Value<'gc, C, S>) { list.borrow_mut(mc).push_back(val); }
                add(mc, list, val);"""),
 ('keep', 'P14', PR, """                let list = self.value_stack.pop().unwrap().as_list()?;
                self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into());""", """                let list = self.value_stack.pop().unwrap().as_list()?;
                fn fresh<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, vals: VecDeque<Value<'gc, C, S>>) -> Value<'gc, C, S> { Gc::new(mc, RefLock::new(vals)).into() }
                let rev = list.borrow().iter().rev().cloned().collect::<VecDeque<_>>();
                self.value_stack.push(fresh(mc, rev));"""),
 ('keep', 'P14', PR, """                        let res = as_list(&real_res).unwrap();
                        let mut res = res.borrow_mut(mc);
                        for a in &*a {""", """                        let cell = as_list(&real_res).unwrap();
                        let mut res = cell.borrow_mut(mc);
                        for a in a.iter() {"""),
 ('keep', 'P14', PR, "                let mut res = self.value_stack.pop().unwrap().as_list()?.borrow().clone();\n                res.push_front(self.value_stack.pop().unwrap());\n                self.value_stack.push(Gc::new(mc, RefLock::new(res)).into());", "                let tail = self.value_stack.pop().unwrap().as_list()?;\n                let head = self.value_stack.pop().unwrap();\n                let res = Gc::new(mc, RefLock::new(tail.borrow().clone()));\n                res.borrow_mut(mc).push_front(head);\n                self.value_stack.push(res.into());"),
]
