S, U, C = 'std_system.rs', 'std_util.rs', 'cli.rs'
MUTS = [
 # the tee holds the output lock while it prints
 ('break', 'P33', C, """                let mut output = state.output.lock().unwrap();
                output.push_str(&content);
                output.push('\\n');
            }
            println!("{content}");""", """                let mut output = state.output.lock().unwrap();
                output.push_str(&content);
                output.push('\\n');
                println!("{content}");
            } else {
                println!("{content}");
            }"""),
 # one lock taken twice
 ('break', 'P33', C, """            let output = mem::take(&mut *state.output.lock().unwrap());
            let errors = mem::take(&mut *state.errors.lock().unwrap());
""", """            let mut out = state.output.lock().unwrap();
            let mut errs = state.errors.lock().unwrap();
            if !errs.is_empty() { state.output.lock().unwrap().push('\\n'); }
            let (output, errors) = (mem::take(&mut *out), mem::take(&mut *errs));
            drop((out, errs));
"""),
 # opposite orders
 ('break', 'P33', C, [("""            let output = mem::take(&mut *state.output.lock().unwrap());
            let errors = mem::take(&mut *state.errors.lock().unwrap());
""", """            let mut out = state.output.lock().unwrap();
            let mut errs = state.errors.lock().unwrap();
            let (output, errors) = (mem::take(&mut *out), mem::take(&mut *errs));
            drop((out, errs));
"""), ("                                state.errors.lock().unwrap().push(ErrorSummary {", """                                {
                                    let mut errs = state.errors.lock().unwrap();
                                    state.output.lock().unwrap().push('\\n');
                                    errs.clear();
                                }
                                state.errors.lock().unwrap().push(ErrorSummary {""")], None),
 ('break', 'P33', C, """                        let summary = ErrorSummary::extract(error, proc, &env.locs);

                        tee_println!""", """                        let summary = ErrorSummary::extract(error, proc, &env.locs);
                        let mut errs = state.errors.lock().unwrap();
                        tee_println!"""),
 # a condition's temporary keeps the lock for the whole branch
 ('break', 'P33', C, "                    ServerCommand::Input(input) => {\n", "                    ServerCommand::Input(input) => {\n                        if let Some(n) = weak_state.upgrade().and_then(|s| s.output.lock().unwrap().len().checked_sub(1_000_000)) { println!(\"{n}\"); }\n                        if let Some(state) = weak_state.upgrade() { match state.current_proj.lock().unwrap().as_str() { \"\" => println!(\"no project\"), _ => () } }\n"),
 # awaiting under the lock
 ('break', 'P33', C, "            let proj = state.current_proj.lock().unwrap().clone();", "            let guard = state.current_proj.lock().unwrap();\n            if guard.is_empty() { actix_web::rt::time::sleep(std::time::Duration::from_millis(5)).await; }\n            let proj = guard.clone();\n            drop(guard);"),
 # sleeping under the lock
 ('break', 'P33', S, "        let mut message_replies = self.message_replies.lock().unwrap();\n", "        let mut message_replies = self.message_replies.lock().unwrap();\n        if message_replies.len() > 64 { std::thread::sleep(std::time::Duration::from_millis(1)); }\n"),
 # a wait behind a helper
 ('break', 'P33', S, [("        let mut message_replies = self.message_replies.lock().unwrap();\n", "        let mut message_replies = self.message_replies.lock().unwrap();\n        relax(message_replies.len());\n"), ("/// A type implementing the [`System`] trait", "fn relax(n: usize) { if n > 64 { std::thread::sleep(std::time::Duration::from_millis(1)); } }\n/// A type implementing the [`System`] trait")], None),
 # nested through a helper of the same lock
 ('break', 'P33', U, "            *cache.value.lock().unwrap() = t;", "            let mut value = cache.value.lock().unwrap();\n            if self.read(Precision::Low) < t { *value = t; }"),
 ('break', 'P33', U, "            Some(cache) if precision <= cache.precision => *cache.value.lock().unwrap(),\n            _ => self.update(),", "            Some(cache) => {\n                let value = cache.value.lock().unwrap();\n                if precision <= cache.precision { *value } else { self.update() }\n            }\n            None => self.update(),"),
 # receiving under a lock
 ('break', 'P33', S, "        self.message_receiver.try_recv().ok()", "        let replies = self.message_replies.lock().unwrap();\n        match replies.is_empty() { true => self.message_receiver.try_recv().ok(), false => self.message_receiver.recv_timeout(std::time::Duration::from_millis(1)).ok() }"),
 # a handler of the embedding program under a lock
 ('break', 'P33', S, "                let key = AsyncKey::new();\n                match handler(mc, key.clone(), command, proc) {", "                let key = AsyncKey::new();\n                let _rng = self.rng.lock().unwrap();\n                match handler(mc, key.clone(), command, proc) {"),
 # the server holds the lock while the project runs
 ('break', 'P33', C, "                        env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input));\n                    }\n                }", "                        let state = weak_state.upgrade();\n                        let _held = state.as_ref().map(|x| x.current_proj.lock().unwrap());\n                        env.mutate(|mc, env| { env.proj.borrow_mut(mc).input(mc, input); env.proj.borrow_mut(mc).step(mc); });\n                    }\n                }"),
 # a lock that is never released
 ('break', 'P33', S, "        self.rng.lock().unwrap().random_range(range)", "        let mut rng = self.rng.lock().unwrap();\n        let res = rng.random_range(range);\n        std::mem::forget(rng);\n        res"),
 # a full channel under a lock
 ('break', 'P33', C, [("    let (proj_sender, proj_receiver) = channel();", "    let (proj_sender, proj_receiver) = std::sync::mpsc::sync_channel(1);"), ("        proj_sender: Mutex<Sender<ServerCommand>>,", "        proj_sender: Mutex<std::sync::mpsc::SyncSender<ServerCommand>>,")], None),
 # behaviour kept
 ('keep', 'P33', U, "            *cache.value.lock().unwrap() = t;", "            let mut value = cache.value.lock().unwrap();\n            *value = t;\n            drop(value);"),
 ('keep', 'P33', S, "        self.rng.lock().unwrap().random_range(range)", "        let mut rng = self.rng.lock().unwrap();\n        rng.random_range(range)"),
 ('keep', 'P33', C, "                let mut output = state.output.lock().unwrap();\n                output.push_str(&content);\n                output.push('\\n');\n            }", "                let mut output = state.output.lock().unwrap();\n                output.push_str(&content);\n                output.push('\\n');\n                drop(output);\n            }"),
 ('keep', 'P33', C, """            let output = mem::take(&mut *state.output.lock().unwrap());
            let errors = mem::take(&mut *state.errors.lock().unwrap());
""", """            let mut out = state.output.lock().unwrap();
            let mut errs = state.errors.lock().unwrap();
            let (output, errors) = (mem::take(&mut *out), mem::take(&mut *errs));
            drop((out, errs));
"""),
 ('keep', 'P33', S, "                let expiry = self.clock.read(Precision::Medium) + MESSAGE_REPLY_TIMEOUT;\n                self.message_replies.lock().unwrap().insert(reply_key.clone(), ReplyEntry { expiry, value: None });\n", "                let mut replies = self.message_replies.lock().unwrap();\n                let expiry = self.clock.read(Precision::Medium) + MESSAGE_REPLY_TIMEOUT;\n                replies.insert(reply_key.clone(), ReplyEntry { expiry, value: None });\n"),
 ('keep', 'P33', U, "        self.0.lock().unwrap().poll()", "        let mut guard = self.locked();\n        guard.poll()") if False else
 ('keep', 'P33', U, [("        self.0.lock().unwrap().poll()", "        self.locked().poll()"), ("        assert!(self.0.lock().unwrap().complete(value).is_ok())", "        assert!(self.locked().complete(value).is_ok())"), ("    /// Equivalent to [`AsyncResult::poll`] on the shared", "    fn locked(&self) -> std::sync::MutexGuard<'_, AsyncResult<T>> { self.0.lock().unwrap() }\n    /// Equivalent to [`AsyncResult::poll`] on the shared")], None),
 ('keep', 'P33', C, "            let proj = state.current_proj.lock().unwrap().clone();", "            let proj = match state.current_proj.lock() { Ok(x) => x.clone(), Err(e) => e.into_inner().clone() };"),
]
