# (kind, checks, file under src, old, new[, occurrence])
MUTS = [
('break', 'P18', 'process.rs', "RequestAction::Rpc => process_result(x, settings.rpc_error_scheme, Some(&mut self.value_stack), None, Some(&mut self.last_rpc_error), Some)?", "RequestAction::Rpc => process_result(x, settings.rpc_error_scheme, Some(&mut self.value_stack), None, Some(&mut self.last_syscall_error), Some)?"),
('break', 'P18', 'process.rs', "RequestAction::Rpc => process_result(x, settings.rpc_error_scheme", "RequestAction::Rpc => process_result(x, settings.syscall_error_scheme"),
('break', 'P18', 'process.rs', "if let Some(last_err) = last_err { *last_err = None }", "let _ = &last_err;"),
('break', 'P18', 'process.rs', "RequestAction::Push => process_result(x, ErrorScheme::Hard", "RequestAction::Push => process_result(x, ErrorScheme::Soft"),
('break', 'P18', 'process.rs', "None => Text::default().into(),\n                    };", "None => Value::Bool(false),\n                    };self.last_answer = None;"),
('break', 'P18', 'process.rs', "self.value_stack.push(self.last_rpc_error.clone()", "self.value_stack.push(self.last_syscall_error.clone()"),
('break', 'P18', 'process.rs', "action: RequestAction::Rpc,", "action: RequestAction::Syscall,"),
('break', 'P19', 'runtime.rs', "Command::GotoXY { .. } => Feature::GotoXY", "Command::GotoXY { .. } => Feature::GotoEntity"),
('break', 'P19', 'runtime.rs', "Feature::PlaySound { blocking: *blocking }", "Feature::PlaySound { blocking: !*blocking }"),
('break', 'P19', 'runtime.rs', "Self::Timeless | Self::Arbitrary { .. } => Err(ErrorCause::NotSupported { feature: Feature::RealTime })", "Self::Timeless | Self::Arbitrary { .. } => Err(ErrorCause::NotSupported { feature: Feature::ArbitraryTime })"),
('break', 'P19', 'std_system.rs', "CommandStatus::UseDefault { key: _, command } => return Err(ErrorCause::NotSupported { feature: command.feature() }),", "CommandStatus::UseDefault { key, command: _ } => { key.clone().complete(Ok(())); key }"),
('break', 'P19', 'process.rs', "Some(Defer::Command { key, aft_pos }) => match system.poll_command(mc, &key, self)? {", "Some(Defer::Command { key, aft_pos }) => match system.poll_command(mc, &key, self).unwrap_or(AsyncResult::Pending) {"),
('keep', 'P18 P19 P03 P04', 'process.rs', "            Err(x) => match error_scheme {\n                    ErrorScheme::Soft => {", "            Err(x) => match error_scheme {\n                    ErrorScheme::Soft if true => {") if False else
('keep', 'P18 P19 P03 P04', 'process.rs', "                    process_result(x, ErrorScheme::Hard, None, None, None, |_| None)?;\n                    self.pos = aft_pos;", "                    if let Err(error) = x { return Err(ErrorCause::Promoted { error }); }\n                    self.pos = aft_pos;"),

# ---- scheduler
('break', 'P24', 'project.rs', "                    self.state.process_queue.push_back(proc_key);\n                    ProjectStep::Yield", "                    ProjectStep::Yield"),
('break', 'P24', 'project.rs', "ProcessStep::Pause => {\n                    self.state.process_queue.push_front(proc_key);", "ProcessStep::Pause => {\n"),
('break', 'P24', 'project.rs', "                        self.state.processes.remove(proc_key);\n                        all_contexts", "                        all_contexts"),
('break', 'P24', 'project.rs', "                    self.state.process_queue.push_back(fork_proc_key); // forked", "                    let _ = fork_proc_key; // forked"),
('break', 'P24', 'project.rs', "self.state.processes.clear();\n                        self.state.process_queue.clear();\n                        ProjectStep::Normal", "self.state.process_queue.clear();\n                        ProjectStep::Normal"),
('break', 'P24', 'project.rs', "dispatcher: self.state.processes.get(proc_key) }); // the", "dispatcher: Some(self.state.processes.get(proc_key).unwrap()) }); // the"),
('break', 'P24', 'project.rs', "Some(proc_key) => if let Some(proc) = self.state.processes.get_mut(proc_key) { break (proc_key, proc) }", "Some(proc_key) => break (proc_key, self.state.processes.get_mut(proc_key).unwrap()),"),
('break', 'P24', 'project.rs', "                    state.process_queue.push_back(key);\n", "                    if state.process_queue.is_empty() { state.process_queue.push_back(key); }\n"),
('break', 'P24', 'project.rs', "                    self.process = Some(key);\n", "                    let _ = key;\n"),
('break', 'P24', 'project.rs', "let proc = self.state.processes.remove(proc_key).unwrap();\n                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process\n                    ProjectStep::ProcessTerminated", "let proc = self.state.processes.remove(proc_key).unwrap();\n                    all_contexts_consumer.do_once(self); self.state.process_queue.push_back(proc_key);\n                    ProjectStep::ProcessTerminated"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "ProcessStep::Normal => {\n                    self.state.process_queue.push_front(proc_key);\n                    ProjectStep::Normal\n                }", "ProcessStep::Normal => {\n                    let q = &mut self.state.process_queue; q.push_front(proc_key);\n                    ProjectStep::Normal\n                }"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "for i in 0..self.scripts.len() {\n                    if let Event::OnFlag = &self.scripts[i].event.0 {", "for i in 0..self.scripts.len() {\n                    if matches!(&self.scripts[i].event.0, Event::OnFlag) {"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "        if !core::mem::replace(&mut self.did_it, true) {\n            for script in proj.scripts.iter_mut() {\n                script.consume_context(&mut proj.state);\n            }\n        }", "        if self.did_it { return }\n        self.did_it = true;\n        for i in 0..proj.scripts.len() {\n            proj.scripts[i].consume_context(&mut proj.state);\n        }"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "    fn consume_context(&mut self, state: &mut State<'gc, C, S>) {\n        let process = self.process.and_then(|key| Some((key, state.processes.get_mut(key)?)));\n        match process {\n            Some(proc) => match proc.1.is_running() {\n                true => return,\n                false => unreachable!(), // should have already been cleaned up by the scheduler\n            }\n            None =>", "    fn consume_context(&mut self, state: &mut State<'gc, C, S>) {\n        match self.process.and_then(|key| state.processes.get(key)) {\n            Some(proc) => { debug_assert!(proc.is_running()); return }\n            None =>"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "        if self.context_queue.len() > max_queue {\n            self.context_queue.pop_back();\n        }", "        if max_queue < self.context_queue.len() {\n            let dropped = self.context_queue.pop_back();\n            drop(dropped);\n        }"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', [("                    let key = state.processes.insert(proc);\n                    state.process_queue.push_back(key);\n                    self.process = Some(key);", "                    self.process = Some(state.spawn(proc));"), ("#[derive(Collect)]\n#[collect(no_drop, bound = \"\")]\npub struct Project<", "impl<'gc, C: CustomTypes<S>, S: System<C>> State<'gc, C, S> {\n    fn spawn(&mut self, proc: Process<'gc, C, S>) -> ProcessKey {\n        let key = self.processes.insert(proc);\n        self.process_queue.push_back(key);\n        key\n    }\n}\n#[derive(Collect)]\n#[collect(no_drop, bound = \"\")]\npub struct Project<")], None),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "if name != *script_event_name { continue }\n", "if !(name == *script_event_name) { continue }\n"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "                        for script in self.scripts.iter_mut() {\n                            script.context_queue.clear();\n                        }\n                        self.state.processes.clear();\n                        self.state.process_queue.clear();", "                        self.state.process_queue.clear();\n                        self.state.processes.clear();\n                        self.scripts.iter_mut().for_each(|script| script.context_queue.clear());"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "                    let mut new_scripts = vec![];\n                    for script in self.scripts.iter() {\n                        if Gc::ptr_eq(script.entity, original) {\n                            new_scripts.push(Script {\n                                event: script.event.clone(),\n                                entity: clone,\n                                process: None,\n                                context_queue: Default::default(),\n                            });\n                        }\n                    }", "                    let mut new_scripts: Vec<_> = self.scripts.iter().filter(|script| Gc::ptr_eq(script.entity, original)).map(|script| Script {\n                        event: script.event.clone(),\n                        entity: clone,\n                        process: None,\n                        context_queue: Default::default(),\n                    }).collect();"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[i].entity, target)) {", "if targets.iter().all(|&target| !Gc::ptr_eq(self.scripts[i].entity, target)) {"),
('keep', 'P23 P24 P25 P26 P27 P28', 'project.rs', "if key_filter.map(|x| x == input_key).unwrap_or(true) {", "if key_filter.is_none() || *key_filter == Some(input_key) {"),
# P23
('break', 'P23', 'project.rs', "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first()", "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().last()"),
('break', 'P23', 'project.rs', "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc", "self.state.processes.retain_mut(|_, v| !Gc"),
('break', 'P23', 'project.rs', "                        for script in self.scripts.iter_mut() {\n                            script.context_queue.clear();\n                        }\n", ""),
('break', 'P23', 'project.rs', "                for script in self.scripts.iter_mut() {\n                    script.stop_all(&mut self.state);\n                }\n                self.state.processes.clear();", "                for script in self.scripts.iter_mut() {\n                    script.stop_all(&mut self.state);\n                }\n"),
('break', 'P23', 'project.rs', "                for script in self.scripts.iter_mut() {\n                    script.stop_all(&mut self.state);\n                }\n                self.state.processes.clear();", "                self.state.processes.clear();"),
('break', 'P23', 'project.rs', "let entity = proc.get_call_stack().last().unwrap().entity;\n                        self.state.processes.retain", "let entity = proc.get_call_stack().first().unwrap().entity;\n                        self.state.processes.retain"),
('break', 'P23', 'process.rs', "return Ok(ProcessStep::Abort { mode });", "return Ok(ProcessStep::Abort { mode: AbortMode::MyOthers });"),
# P25
('break', 'P25', 'project.rs', "        // a process can end during this step, so contexts may need to be consumed again even if it was already done for a message\n        let mut all_contexts_consumer = AllContextsConsumer::new();\n", ""),
('break', 'P25', 'project.rs', "                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process\n                        ProjectStep::Normal", "                        ProjectStep::Normal"),
('break', 'P25', 'project.rs', "                    let proc = self.state.processes.remove(proc_key).unwrap();\n                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process\n                    ProjectStep::ProcessTerminated", "                    all_contexts_consumer.do_once(self);\n                    let proc = self.state.processes.remove(proc_key).unwrap();\n                    ProjectStep::ProcessTerminated"),
('break', 'P25', 'project.rs', "            self.context_queue.pop_back();", "            self.context_queue.pop_front();"),
('break', 'P25', 'project.rs', "match self.context_queue.pop_front() {", "match self.context_queue.pop_back() {"),
('break', 'P25', 'project.rs', "self.context_queue.len() > max_queue", "self.context_queue.len() >= max_queue"),
('break', 'P25', 'project.rs', "if interrupt { self.scripts[i].stop_all(&mut self.state); }", "if !interrupt { self.scripts[i].stop_all(&mut self.state); }"),
('break', 'P25', 'project.rs', "reply_key: reply_key.clone(), local_message: None }, usize::MAX);", "reply_key: reply_key.clone(), local_message: None }, 1);"),
('break', 'P25', 'project.rs', "            for script in proj.scripts.iter_mut() {\n                script.consume", "            for script in proj.scripts.iter_mut().skip(1) {\n                script.consume"),
('break', 'P25', 'project.rs', "        self.context_queue.clear();\n    }", "    }"),
('break', 'P25', 'project.rs', "barrier: context.barrier, reply_key: context.reply_key,", "barrier: None, reply_key: context.reply_key,"),
('break', 'P25', 'process.rs', "            barrier: context.barrier,\n", "            barrier: None,\n"),
# P26
('break', 'P26', 'project.rs', "barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone())", "barrier: None, reply_key: None, local_message: Some(msg_type.clone())"),
('break', 'P26', 'project.rs', "barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone())", "barrier: if i == 0 { barrier.clone() } else { None }, reply_key: None, local_message: Some(msg_type.clone())"),
('break', 'P26', 'project.rs', "barrier: None, reply_key: reply_key.clone(), local_message: None }, usize::MAX);", "barrier: None, reply_key: if i > 0 { None } else { reply_key.clone() }, local_message: None }, usize::MAX);"),
('break', 'P26', 'runtime.rs', "self.0.strong_count() == 0", "self.0.strong_count() <= 1"),
('break', 'P26', 'process.rs', "self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos });", "self.defer = Some(Defer::Barrier { condition: Barrier::new().get_condition(), aft_pos });"),
('break', 'P26', 'process.rs', "Some(Defer::Barrier { condition, aft_pos }) => match condition.is_completed() {", "Some(Defer::Barrier { condition, aft_pos }) => match !condition.is_completed() {"),
('keep', 'P26', 'runtime.rs', "self.0.strong_count() == 0", "self.0.upgrade().is_none()"),
('keep', 'P26', 'process.rs', "                let barrier = match wait {\n                    false => {\n                        self.pos = aft_pos;\n                        None\n                    }\n                    true => {\n                        let barrier = Barrier::new();\n                        self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos });\n                        Some(barrier)\n                    }\n                };", "                let barrier = wait.then(Barrier::new);\n                if let Some(barrier) = &barrier {\n                    self.defer = Some(Defer::Barrier { condition: barrier.get_condition(), aft_pos });\n                } else {\n                    self.pos = aft_pos;\n                }"),
# P27
('break', 'P27', 'project.rs', "recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true)", "recv_type.as_deref().map(|x| x == msg_type).unwrap_or(false)"),
('break', 'P27', 'project.rs', "key_filter.map(|x| x == input_key).unwrap_or(true)", "key_filter.map(|x| x != input_key).unwrap_or(true)"),
('break', 'P27', 'project.rs', "if msg_type != *script_msg_type { continue }", "if msg_type != *script_msg_type { break }"),
('break', 'P27', 'project.rs', "if msg_type != *script_msg_type { continue }", "if msg_type.is_empty() { continue }"),
('break', 'P27', 'project.rs', "for i in 0..self.scripts.len() {\n                    if let Event::OnFlag", "for i in 1..self.scripts.len() {\n                    if let Event::OnFlag"),
('break', 'P27', 'project.rs', "                                if let Some(targets) = &targets {\n                                    if !targets", "                                if let Some(targets) = &targets {\n                                    if targets.len() > 1 && !targets"),
('break', 'P27', 'project.rs', "if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[i].entity, target)) {\n                                        continue", "if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[0].entity, target)) {\n                                        continue"),
('break', 'P27', 'project.rs', "let value = args.get(field).map(", "let value = args.get(&name).map("),
('break', 'P27', 'project.rs', "                    for script in new_scripts.iter_mut() {\n                        if let Event::OnClone", "                    for script in new_scripts.iter_mut() {\n                        if let Event::OnFlag"),
# P28
('break', 'P28', 'project.rs', "self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));\n", ""),
('break', 'P28', 'project.rs', "!Gc::ptr_eq(proc.get_call_stack().first()", "!Gc::ptr_eq(proc.get_call_stack().last()"),
('break', 'P28', 'project.rs', "                                entity: clone,\n", "                                entity: original,\n"),
('break', 'P28', 'project.rs', "                    self.scripts.extend(new_scripts);\n", ""),
('break', 'P28', 'project.rs', "if Gc::ptr_eq(script.entity, original) {", "if Gc::ptr_eq(script.entity, original) && script.context_queue.is_empty() {"),
('break', 'P28', 'project.rs', "                                process: None,\n                                context_queue", "                                process: script.process,\n                                context_queue"),
('break', 'P28', 'process.rs', "if entity.borrow().original.is_some() {\n                    return Ok(ProcessStep::DeletedClone", "if entity.borrow().original.is_some() || !entity.borrow().name.is_empty() {\n                    return Ok(ProcessStep::DeletedClone"),
]
