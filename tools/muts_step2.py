R='process.rs'
def b(p,o,n,*k): return ('break',p,R,o,n)+k
ALL='P03 P04 P05 P06 P07 P15 P18 P10 P44'
def kp(o,n,*k): return ('keep',ALL,R,o,n)+k
MUTS=[
 b('P04','''            self.reply_key = None;
            self.defer = None;''','''            if self.reply_key.is_some() && res.is_err() { self.reply_key = None; }
            self.defer = None;'''),
 b('P04','''                res = Ok(ProcessStep::Normal);
            }
        }
''','''                res = Ok(ProcessStep::Normal);
                if self.handler_stack.len() > 1 { self.barrier = None; }
            }
        }
'''),
 b('P04','''            self.pos = usize::MAX;
            self.barrier = None;''','''            self.pos = usize::MAX;
            if self.call_stack.len() <= 1 { self.barrier = None; }'''),
 b('P04','Ok(ProcessStep::Abort { mode: AbortMode::Current | AbortMode::All }) | Err(_) = &res','Ok(ProcessStep::Abort { .. }) | Err(_) = &res'),
 b('P04','Ok(ProcessStep::Abort { mode: AbortMode::Current | AbortMode::All }) | Err(_) = &res','Ok(ProcessStep::Abort { mode: AbortMode::Current }) | Err(_) = &res'),
 b('P04','''            self.defer = None;
        }

        res''','''            self.defer = None;
        }
        if let Ok(ProcessStep::Broadcast { barrier: Some(_), .. }) = &res { self.barrier = None; }

        res'''),
 b("P04",'if let Some(key) = self.reply_key.take() {\n                    system.send_reply','if let Some(key) = self.reply_key.clone() {\n                    system.send_reply'),
 b('P04','''                if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }''','''                if self.warp_counter == 0 { if self.call_stack.len() == 1 && self.value_stack.len() > 64 { self.barrier.take(); } return Ok(ProcessStep::Yield) }'''),
 b('P05','''                self.state.unwind_to(unwind_point);

                if self.call_stack.len() > 1 {''','''                if self.call_stack.len() > 1 { self.state.unwind_to(unwind_point); }

                if self.call_stack.len() > 1 {'''),
 b('P05','''                self.warp_counter = *warp_counter;
                self.value_stack.drain(value_stack_size..);''','''                if *warp_counter > 0 { self.warp_counter = *warp_counter; }
                self.value_stack.drain(value_stack_size..);'''),
 b('P05','self.call_stack.last_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Text::from(msg.as_str()).into()));','self.call_stack.first_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Text::from(msg.as_str()).into()));'),
 b('P05','''                    call_stack_size: self.call_stack.len(),
                    value_stack_size: self.value_stack.len(),
                    unwind_point''','''                    call_stack_size: self.call_stack.len(),
                    value_stack_size: self.call_stack.last().unwrap().value_stack_size,
                    unwind_point'''),
 b('P06','''                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit {''','''                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit && self.handler_stack.is_empty() {''',0),
 b('P06','''                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit {''','''                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit && !new_entity {''',1),
 b('P07','if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }','if self.warp_counter == 0 && self.handler_stack.is_empty() { return Ok(ProcessStep::Yield) }'),
 b('P07','''                    self.pos = aft_pos;
                    return Ok(ProcessStep::Yield);
                }
                self.defer = Some(Defer::Sleep''','''                    self.pos = aft_pos;
                    if self.warp_counter > 0 { return Ok(ProcessStep::Normal); }
                    return Ok(ProcessStep::Yield);
                }
                self.defer = Some(Defer::Sleep'''),
 b('P15','locals.define_or_redefine(k, v.alias(mc));','locals.define_or_redefine(k, if args == 0 { v.alias(mc) } else { v.get().clone().into() });'),
 b('P15','caps.define_or_redefine(var, lookup_var!(mut var => var.alias(mc)));','caps.define_or_redefine(var, lookup_var!(mut var => if captures.len() > 8 { Shared::Unique(var.get().clone()) } else { var.alias(mc) }));'),
 b('P18','if let Some(last_err) = last_err { *last_err = None }','if let (Some(last_err), None) = (last_err, &stack) { *last_err = None }'),
 b('P18','if let Some(last_ok) = last_ok { *last_ok = None }','let _ = last_ok;'),
 b('P18','RequestAction::Rpc => process_result(x, settings.rpc_error_scheme,','RequestAction::Rpc => process_result(x, settings.syscall_error_scheme,'),
 b('P18','let args = iter::zip(arg_names, self.value_stack.drain(self.value_stack.len() - arg_count..)).collect();','let args = iter::zip(arg_names, self.value_stack.drain(self.value_stack.len() - arg_count..).rev()).collect();'),
 b('P18','''                    let value = match x {
                        Some(x) => Value::from_simple(mc, SimpleValue::from_netsblox_json(x)?),
                        None => Text::default().into(),
                    };
                    self.value_stack.push(value);''','''                    let value = match x {
                        Some(x) => Value::from_simple(mc, SimpleValue::from_netsblox_json(x)?),
                        None => self.last_answer.clone().unwrap_or_else(|| Text::default().into()),
                    };
                    self.value_stack.push(value);'''),
 b('P03','''                    true => {
                        let barrier = Barrier::new();
                        self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos });
                        Some(barrier)''','''                    true => {
                        let barrier = Barrier::new();
                        match &targets { Some(t) => { let t: &Vec<_> = t; if t.is_empty() { self.pos = aft_pos; } }, None => () }
                        if self.pos != aft_pos { self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos: self.pos }); }
                        Some(barrier)'''),
 b('P26','Some(Defer::Barrier { condition, aft_pos }) => match condition.is_completed() {','Some(Defer::Barrier { condition, aft_pos }) => match condition.is_completed() || self.warp_counter > 0 {'),
 # keeps
 kp('''        if let Ok(ProcessStep::Terminate { result: _ }) | Ok(ProcessStep::Abort { mode: AbortMode::Current | AbortMode::All }) | Err(_) = &res {
            self.pos = usize::MAX;
            self.barrier = None;
            self.reply_key = None;
            self.defer = None;
        }

        res''','''        let ended = match &res {
            Err(_) => true,
            Ok(ProcessStep::Terminate { .. }) => true,
            Ok(ProcessStep::Abort { mode }) => matches!(mode, AbortMode::Current | AbortMode::All),
            Ok(_) => false,
        };
        if ended {
            self.defer.take();
            drop(self.reply_key.take());
            drop(self.barrier.take());
            self.pos = usize::MAX;
        }
        res'''),
 kp('''                self.call_stack.drain(*call_stack_size..);
                self.value_stack.drain(*value_stack_size..);''','''                self.value_stack.truncate(*value_stack_size);
                self.call_stack.truncate(*call_stack_size);'''),
 kp('''            Some(Defer::Barrier { condition, aft_pos }) => match condition.is_completed() {
                true => {
                    self.pos = aft_pos;
                }
                false => {
                    self.defer = Some(Defer::Barrier { condition, aft_pos });
                    return Ok(ProcessStep::Yield);
                }
            }''','''            Some(Defer::Barrier { condition, aft_pos }) => {
                if !condition.is_completed() {
                    self.defer = Some(Defer::Barrier { condition, aft_pos });
                    return Ok(ProcessStep::Yield);
                }
                self.pos = aft_pos;
            }'''),
 kp('''                match mode {
                    AbortMode::Current | AbortMode::All => (),
                    AbortMode::Others | AbortMode::MyOthers => self.pos = aft_pos,
                }
                return Ok(ProcessStep::Abort { mode });''','''                if let AbortMode::Others | AbortMode::MyOthers = mode {
                    self.pos = aft_pos;
                }
                return Ok(ProcessStep::Abort { mode });'''),
 kp('''                let barrier = match wait {
                    false => {
                        self.pos = aft_pos;
                        None
                    }
                    true => {
                        let barrier = Barrier::new();
                        self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos });
                        Some(barrier)
                    }
                };''','''                let barrier = wait.then(Barrier::new);
                match &barrier {
                    Some(barrier) => self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos }),
                    None => self.pos = aft_pos,
                }'''),
 kp('''                if let Some(key) = self.reply_key.take() {
                    system.send_reply(key, value)?;
                }
                self.pos = aft_pos;''','''                self.pos = aft_pos;
                match self.reply_key.take() {
                    None => (),
                    Some(key) => system.send_reply(key, value)?,
                }'''),
 kp('''                let params = lossless_split(tokens).collect::<Vec<_>>();
                let params_count = params.len();

                let mut locals = SymbolTable::default();
                for (var, val) in iter::zip(params.into_iter(), self.value_stack.drain(self.value_stack.len() - params_count..)) {
                    locals.define_or_redefine(var, val.into());
                }
''','''                let params: Vec<&str> = lossless_split(tokens).collect();
                let first = self.value_stack.len() - params.len();
                let mut locals = SymbolTable::default();
                for (val, var) in self.value_stack.drain(first..).zip(&params) {
                    locals.define_or_redefine(var, Shared::Unique(val));
                }
'''),
 kp('''                if self.call_stack.len() > 1 {
                    self.call_stack.pop();
                    self.value_stack.push(return_value);
                } else {''','''                if self.call_stack.len() != 1 {
                    self.value_stack.push(return_value);
                    self.call_stack.pop();
                } else {'''),
]
skip=("if self.warp_counter > 0 { return Ok(ProcessStep::Normal); }", "'let _ = last_ok;'", 'let _ = last_ok;')
MUTS=[(m[0],'P09')+m[2:] if '.rev()).collect()' in str(m[4]) else m for m in MUTS if not any(x in str(m[4]) for x in skip)]
