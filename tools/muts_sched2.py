R='project.rs'
def b(p,o,n,*k): return ('break',p,R,o,n)+k
def kp(o,n,*k): return ('keep','P23 P24 P25 P26 P27 P28',R,o,n)+k
M = [
 # P25
 b('P25','''            if self.context_queue.len() > max_queue {
            self.context_queue.pop_back();
        }'''.replace('            if','        if'),'''        while self.context_queue.len() > max_queue {
            self.context_queue.pop_front();
        }'''),
 b('P25','''                None => return,
                Some(context) => {''','''                None => return,
                Some(_) if state.process_queue.len() >= 64 => return,
                Some(context) => {'''),
 b('P25','''        if !core::mem::replace(&mut self.did_it, true) {
            for script''','''        if !core::mem::replace(&mut self.did_it, !proj.state.process_queue.is_empty()) && proj.state.processes.len() < 100 {
            for script'''),
 b('P25','''                ProcessStep::Yield => {
                    all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
''','''                ProcessStep::Yield => {
                    if self.state.process_queue.len() > 1 { all_contexts_consumer.do_once(self); }
'''),
 b('P25','''        if let Some(process) = self.process.take() {
            state.processes.remove(process);
        }
        self.context_queue.clear();''','''        if let Some(process) = self.process.take() {
            state.processes.remove(process);
            self.context_queue.clear();
        }'''),
 b('P25 P24','''        if let Some(process) = self.process.take() {
            state.processes.remove(process);
        }
        self.context_queue.clear();''','''        self.process = None;
        self.context_queue.clear();'''),
 b('P25','''            Err(error) => {
                let proc = self.state.processes.remove(proc_key).unwrap();
                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
''','''            Err(error) => {
                let proc = self.state.processes.remove(proc_key).unwrap();
                for script in self.scripts.iter_mut() { if script.process == Some(proc_key) { script.context_queue.clear(); } }
                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
'''),
 b('P25','''                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                        if interrupt { self.scripts[i].stop_all(&mut self.state); }
''','''                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                        if interrupt && max_queue == 0 { self.scripts[i].stop_all(&mut self.state); }
'''),
 # P24
 b('P24','''                    AbortMode::Others => {
                        debug_assert!(proc.is_running());
                        self.state.processes.retain_mut(|k, _| k == proc_key);''','''                    AbortMode::Others => {
                        debug_assert!(proc.is_running());
                        self.state.processes.retain_mut(|k, p| k == proc_key || !p.is_running());'''),
 b('P24','''                        self.state.process_queue.clear();
                        self.state.process_queue.push_front(proc_key); // keep executing the calling process''','''                        self.state.process_queue.push_front(proc_key); // keep executing the calling process
                        self.state.process_queue.retain(|k| *k != proc_key);'''),
 b('P24','''                    self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
                    self.state.process_queue.push_front(proc_key); // keep executing the same process as before''','''                    self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
                    if self.scripts.iter().any(|s| s.process == Some(proc_key)) { self.state.process_queue.push_front(proc_key); }'''),
 b('P24 P26','''                    self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step''','''                    if targets.is_none() { self.state.process_queue.push_front(proc_key); } else { self.state.process_queue.push_back(proc_key); self.state.process_queue.pop_back(); }'''),
 # P26
 b('P26','barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);','barrier: if targets.is_none() { barrier.clone() } else { None }, reply_key: None, local_message: Some(msg_type.clone()) }, 0);'),
 b('P26','barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);','barrier: if self.scripts[i].process == Some(proc_key) { None } else { barrier.clone() }, reply_key: None, local_message: Some(msg_type.clone()) }, 0);'),
 b('P26','local_message: None }, usize::MAX);\n','local_message: None }, usize::MAX);\n                    if reply_key.is_some() { break }\n'),
 # P27
 b('P27','if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {','if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(msg_type.len() > 0) {'),
 b('P27','if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {','if recv_type.as_deref().map(|x| x.eq_ignore_ascii_case(&msg_type)).unwrap_or(true) {'),
 b('P27','if key_filter.map(|x| x == input_key).unwrap_or(true) {','if key_filter.map(|x| x == input_key).unwrap_or(matches!(input_key, KeyCode::Char(_))) {'),
 b('P27','if name != *script_event_name { continue }','if !name.starts_with(script_event_name.as_str()) { continue }'),
 b('P27','if msg_type != *script_msg_type { continue }','if msg_type != *script_msg_type && !script_msg_type.is_empty() { continue }'),
 b('P27','let value = args.get(field).map(|x| Value::from_simple(mc, x.clone())).unwrap_or_else(|| Number::new(0.0).unwrap().into());','let value = args.get(field).or_else(|| args.values().next()).map(|x| Value::from_simple(mc, x.clone())).unwrap_or_else(|| Number::new(0.0).unwrap().into());'),
 b('P27','let values: BTreeMap<_,_> = values.into_iter().collect();','let values: BTreeMap<_,_> = values.into_iter().filter(|x| !x.0.is_empty()).collect();'),
 # P28
 b('P28','if Gc::ptr_eq(script.entity, original) {','if Gc::ptr_eq(script.entity, original) && script.context_queue.is_empty() {'),
 b('P28','let original = clone.borrow().original.unwrap();','let original = clone.borrow().original.unwrap(); let original = original.borrow().original.unwrap_or(original);'),
 b('P28','self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));','self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone) || script.process == Some(proc_key));'),
 b('P28','self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));','if let Some(i) = self.scripts.iter().position(|script| Gc::ptr_eq(script.entity, clone)) { self.scripts.remove(i); }'),
 b('P28','self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));','self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().last().unwrap().entity, clone));'),
 # keeps
 kp('''                    let mut locals = SymbolTable::default();
                    for field in fields.iter() {
                        let value = values.get(field).map(|x| Value::from_simple(mc, x.clone())).unwrap_or_else(|| Number::new(0.0).unwrap().into());
                        locals.define_or_redefine(field, value.into());
                    }
''','''                    let mut locals = SymbolTable::default();
                    for field in fields {
                        let value = match values.get(field) {
                            Some(x) => Value::from_simple(mc, x.clone()),
                            None => Value::Number(Number::new(0.0).unwrap()),
                        };
                        locals.define_or_redefine(field, Shared::from(value));
                    }
'''),
 kp('''        if let Some(process) = self.process.take() {
            state.processes.remove(process);
        }
        self.context_queue.clear();''','''        self.context_queue.clear();
        match self.process.take() {
            Some(key) => { state.processes.remove(key); }
            None => (),
        }'''),
 kp('''                                if let Some(targets) = &targets {
                                    if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[i].entity, target)) {
                                        continue
                                    }
                                }
''','''                                let addressed = match &targets {
                                    Some(targets) => targets.iter().any(|x| Gc::ptr_eq(*x, self.scripts[i].entity)),
                                    None => true,
                                };
                                if !addressed { continue }
'''),
 kp('''        let (proc_key, proc) = loop {
            match self.state.process_queue.pop_front() {
                None => {
                    debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
                    return ProjectStep::Idle;
                }
                Some(proc_key) => if let Some(proc) = self.state.processes.get_mut(proc_key) { break (proc_key, proc) }
            }
        };
''','''        let proc_key = loop {
            match self.state.process_queue.pop_front() {
                Some(key) if self.state.processes.get(key).is_some() => break key,
                Some(_) => continue,
                None => {
                    debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
                    return ProjectStep::Idle;
                }
            }
        };
        let proc = self.state.processes.get_mut(proc_key).unwrap();
'''),
 kp('''                    self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));
                    self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
''','''                    self.state.processes.retain_mut(|_, proc| {
                        let owner = proc.get_call_stack()[0].entity;
                        !Gc::ptr_eq(owner, clone)
                    });
                    self.scripts.retain(|script| !Gc::ptr_eq(clone, script.entity));
'''),
 kp('''            Input::Start => {
                for i in 0..self.scripts.len() {
                    if let Event::OnFlag = &self.scripts[i].event.0 {
                        let state =''','''            Input::Start => {
                for i in 0..self.scripts.len() {
                    if !matches!(self.scripts[i].event.0, Event::OnFlag) { continue }
                    {
                        let state ='''),
]
skip = ('|k, p| k == proc_key || !p.is_running()', 'self.scripts[i].process == Some(proc_key) { None }', 'args.values().next()', 'filter(|x| !x.0.is_empty())', '        self.process = None;')
MUTS = [m for m in M if not any(x in str(m[4]) for x in skip)]
MUTS = [(m[0], 'P24') + m[2:] if m[1] == 'P24 P26' else (m[0], 'P25 P26 P27') + m[2:] if 'if reply_key.is_some() { break }' in str(m[4]) else m for m in MUTS]
MUTS += [kp("let entity = proc.get_call_stack().last().unwrap().entity;\n                        self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));","let owner = { let stack = proc.get_call_stack(); stack[stack.len() - 1].entity };\n                        self.state.processes.retain_mut(|k, v| !Gc::ptr_eq(v.get_call_stack()[0].entity, owner) || k == proc_key);"),
('break','P23','project.rs',"!Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity)","!Gc::ptr_eq(entity, v.get_call_stack()[v.get_call_stack().len() - 1].entity)")]
