MUTS = [
 ('break','P34','cli.rs','let proj = state.current_proj.lock().unwrap().clone();','let proj = mem::take(&mut *state.current_proj.lock().unwrap());'),
 ('break','P34','cli.rs','match String::from_utf8(body.to_vec()) {\n                Ok(content) => {','match Ok::<_, std::string::FromUtf8Error>(String::from_utf8_lossy(&body).into_owned()) {\n                Ok(content) => {'),
 ('break','P34','cli.rs','Ok(input) => match input.as_str() {','Ok(input) => match input.trim() {'),
 ('break','P34','cli.rs','''                ServerCommand::SetProject(content) => match open_project(&content, None) {''','''                ServerCommand::SetProject(content) => match { weak_state.upgrade().unwrap().running.store(false, MemoryOrder::Relaxed); open_project(&content, None) } {'''),
 ('break','P34','cli.rs',[('''        if !weak_state.upgrade().map(|state| state.running.load(MemoryOrder::Relaxed)).unwrap_or(true) {
            idle_sleeper.trigger();
            continue;
        }
''',''),('''        'input: loop {
            match proj_receiver''','''        if !weak_state.upgrade().map(|state| state.running.load(MemoryOrder::Relaxed)).unwrap_or(true) {
            idle_sleeper.trigger();
            continue;
        }
        'input: loop {
            match proj_receiver''')],''),
 ('break','P34','cli.rs','''                            0 => return Err(OpenProjectError::NoRoles),'''.strip()[:0] or '''            1 => parsed.roles.into_iter().next().unwrap(),
            count =>''','''            1 | 2 => parsed.roles.into_iter().next().unwrap(),
            count =>'''),
 ('break','P34','cli.rs','''                                    env = x;
                                    *state.current_proj.lock().unwrap() = content;''','''                                    env = x;
                                    *state.current_proj.lock().unwrap() = content.trim().to_owned();'''),
 ('break','P34','cli.rs','''                                let cause = format_compact!("{:?}", error.kind);
                                state.errors.lock().unwrap().push''','''                                let cause = format_compact!("{:?}", error.kind);
                                env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Stop));
                                state.errors.lock().unwrap().push'''),
 ('break','P34','cli.rs','''                        env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input));
                    }
                }
                Err(TryRecvError::D''','''                        if !state_seen.replace(true) { env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input)); }
                    }
                }
                Err(TryRecvError::D''') if 0 else
 ('break','P34','cli.rs','''                    _ => return HttpResponse::BadRequest().content_type("text/plain").body(format!("unknown input: {input:?}")),''','''                    _ => { state.running.store(false, MemoryOrder::Relaxed); return HttpResponse::BadRequest().content_type("text/plain").body(format!("unknown input: {input:?}")) }'''),
 ('keep','P34','cli.rs','''                            if let Some(state) = weak_state.upgrade() {
                                state.running.store(true, MemoryOrder::Relaxed);
                            }
                        }
                        env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input));''','''                            weak_state.upgrade().map(|state| state.running.store(true, MemoryOrder::Relaxed));
                        }
                        env.mutate(|mc, env| { let mut p = env.proj.borrow_mut(mc); p.input(mc, input) });'''),
 ('keep','P34','cli.rs','''                                Ok(x) => {
                                    env = x;
                                    *state.current_proj.lock().unwrap() = content;
                                }''','''                                Ok(x) => {
                                    let mut current = state.current_proj.lock().unwrap();
                                    *current = content;
                                    env = x;
                                }'''),
 ('break','P35','cli.rs','''    terminal::enable_raw_mode().unwrap();
    execute!(stdout(), cursor::Hide).unwrap();
''','''    execute!(stdout(), cursor::Hide).unwrap();
    terminal::enable_raw_mode().unwrap();
    let _tty_mode_guard = { let g = _tty_mode_guard; move || { let _ = &g; } };
''') if 0 else
 ('break','P35','cli.rs','RawKeyCode::Char(\'c\') if key.modifiers == RawKeyModifiers::CONTROL => break \'program,','RawKeyCode::Char(\'c\') if key.modifiers == RawKeyModifiers::CONTROL => crash!(130: "interrupted"),'),
 ('break','P35','cli.rs','''    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();
}''','''    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();
    mem::forget(_tty_mode_guard);
}'''),
 ('break','P35','cli.rs','''    let _tty_mode_guard = AtExit''','''    let _ = AtExit'''),
 ('break','P35','cli.rs','''            print!("error loading project: {e:?}\\r\\n");
            return;''','''            crash!(1: "error loading project: {e:?}");'''),
 ('break','P35','cli.rs','''        terminal::disable_raw_mode().unwrap();
        execute!(stdout(), cursor::Show).unwrap()''','''        terminal::disable_raw_mode().unwrap();
        execute!(stdout(), terminal::LeaveAlternateScreen, cursor::Hide).unwrap()'''),
 ('break','P35','cli.rs','''        self.0.take().unwrap()()''','''        if !thread::panicking() { self.0.take().unwrap()() } else { self.0.take(); }''') if 0 else
 ('break','P35','cli.rs','''    let config = overrides.fallback(&Config {
        command: {
            let update_flag = update_flag.clone();''','''    std::panic::set_hook(Box::new(|ctx| eprintln!("{ctx}")));
    mem::drop(std::panic::take_hook());
    let _tty_mode_guard = AtExit::new(move || { let _ = &_tty_mode_guard; });
    let config = overrides.fallback(&Config {
        command: {
            let update_flag = update_flag.clone();''') if 0 else
 ('break','P35','cli.rs','''                let res = proj.step(mc);
                if let ProjectStep::Error { error, proc: _ } = &res {
                    print!''','''                let res = proj.step(mc);
                if let ProjectStep::Pause = &res { std::process::exit(0) }
                if let ProjectStep::Error { error, proc: _ } = &res {
                    print!'''),
]
MUTS = [m for m in MUTS if m[1]=='P34' and 'to_owned' not in str(m[4]) and '1 | 2' not in str(m)]
MUTS += [
 ('break','P34','cli.rs','''                            match get_env(&role, system.clone()) {
                                Ok(x) => {
                                    env = x;
                                    *state.current_proj.lock().unwrap() = content;
                                }
                                Err(e) => tee''','''                            match Ok::<_, FromAstError>(get_env(&role, system.clone()).unwrap()) {
                                Ok(x) => {
                                    env = x;
                                    *state.current_proj.lock().unwrap() = content;
                                }
                                Err(e) => tee'''),
 ('break','P34','cli.rs','''                            _ => tee_println!(weak_state.upgrade() => "\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n"),''','''                            OpenProjectError::NoRoles => break 'program,
                            _ => tee_println!(weak_state.upgrade() => "\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n"),'''),
 ('break','P34','cli.rs','''                                    *state.current_proj.lock().unwrap() = content;
                                }''','''                                    *state.current_proj.lock().unwrap() = content.replace('\\r', "");
                                }'''),
 ('keep','P34','cli.rs','''            match proj_receiver.try_recv() {
                Ok(command) => match command {''','''            let got = proj_receiver.try_recv();
            match got {
                Ok(command) => match command {'''),
 ('keep','P34','cli.rs','''                Ok(input) => match input.as_str() {
                    "start" => Input::Start,
                    "stop" => Input::Stop,
                    _ => return HttpResponse::BadRequest().content_type("text/plain").body(format!("unknown input: {input:?}")),
                }''','''                Ok(input) => {
                    let text: &str = &input;
                    if text == "start" { Input::Start }
                    else if text == "stop" { Input::Stop }
                    else { return HttpResponse::BadRequest().content_type("text/plain").body(format!("unknown input: {input:?}")); }
                }'''),
 ('keep','P34','cli.rs','''        if !weak_state.upgrade().map(|state| state.running.load(MemoryOrder::Relaxed)).unwrap_or(true) {
            idle_sleeper.trigger();
            continue;
        }
''','''        let running = match weak_state.upgrade() { Some(state) => state.running.load(MemoryOrder::Relaxed), None => true };
        if !running {
            idle_sleeper.trigger();
            continue;
        }
'''),
]
