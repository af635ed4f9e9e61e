C = 'cli.rs'
G = """    let _tty_mode_guard = AtExit::new(|| {
        terminal::disable_raw_mode().unwrap();
        execute!(stdout(), cursor::Show).unwrap()
    });
"""
H = """    let old_panic_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |ctx| {
        let _ = terminal::disable_raw_mode();
        let _ = execute!(stdout(), cursor::Show);
        old_panic_hook(ctx);
    }));
"""
E = """    terminal::enable_raw_mode().unwrap();
    execute!(stdout(), cursor::Hide).unwrap();
"""
BODY = G + '\n' + H + '\n' + E
MUTS = [
 ('break', 'P35', C, BODY, E + '\n' + G + '\n' + H),
 ('break', 'P35', C, "        let _ = execute!(stdout(), cursor::Show);\n", ""),
 ('break', 'P35', C, "        let _ = terminal::disable_raw_mode();\n", ""),
 ('break', 'P35', C, "        terminal::disable_raw_mode().unwrap();\n        execute!(stdout(), cursor::Show).unwrap()", "        terminal::disable_raw_mode().unwrap();"),
 ('break', 'P35', C, "        terminal::disable_raw_mode().unwrap();\n        execute!(stdout(), cursor::Show).unwrap()", "        execute!(stdout(), cursor::Show).unwrap()"),
 ('break', 'P35', C, "let _tty_mode_guard = AtExit::new", "let _ = AtExit::new"),
 ('break', 'P35', C, G, G + "    std::mem::forget(_tty_mode_guard);\n"),
 ('break', 'P35', C, '            print!("error loading project: {e:?}\\r\\n");\n            return;', '            crash!(3: "error loading project: {e:?}");'),
 ('break', 'P35', C, "RawKeyCode::Char('c') if key.modifiers == RawKeyModifiers::CONTROL => break 'program,", "RawKeyCode::Char('c') if key.modifiers == RawKeyModifiers::CONTROL => std::process::exit(0),"),
 ('break', 'P35', C, H, ""),
 ('break', 'P35', C, BODY, G + '\n' + E + '\n' + "    let mut term_size0 = terminal::size().unwrap();\n    term_size0.0 += 1;\n" + H),
 ('break', 'P35', C, "self.0.take().unwrap()()", "if !std::thread::panicking() && self.0.is_some() && std::env::args().count() < 5 { self.0.take().unwrap()() }"),
 ('break', 'P35', C, "        'program: loop {\n", "") if False else ('break', 'P35', C, "    let mut env = match get_env(role, system) {\n        Ok(x) => x,\n        Err(e) => {\n            print!", "    drop(_tty_mode_guard);\n    execute!(stdout(), cursor::Hide).unwrap();\n    let mut env = match get_env(role, system) {\n        Ok(x) => x,\n        Err(e) => {\n            print!"),
 ('break', 'P35', C, "        old_panic_hook(ctx);\n    }));\n", "        old_panic_hook(ctx);\n    }));\n    let _ = std::panic::take_hook();\n"),
 ('break', 'P35', C, "        let _ = terminal::disable_raw_mode();\n", "        if ctx.location().is_none() { let _ = terminal::disable_raw_mode(); }\n"),
 ('break', 'P35', C, "        let _ = execute!(stdout(), cursor::Show);\n", "        let _ = queue!(stdout(), cursor::Show);\n"),
 ('break', 'P35', C, "    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();\n}", "    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();\n    std::process::exit(0);\n}"),
 # behaviour kept
 ('keep', 'P35', C, BODY, H + '\n' + G + '\n' + E),
 ('keep', 'P35', C, [(BODY, """    struct Tty;
    impl Drop for Tty {
        fn drop(&mut self) { restore_terminal(); }
    }
    let _tty = Tty;
    let old_panic_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |ctx| {
        restore_terminal();
        old_panic_hook(ctx);
    }));
""" + E), ("fn run_proj_tty<", """fn restore_terminal() {
    let _ = terminal::disable_raw_mode();
    let _ = execute!(stdout(), cursor::Show);
}
fn run_proj_tty<""")], None),
 ('keep', 'P35', C, [(BODY, "    let _guard = enter_interactive();\n"), ("fn run_proj_tty<", """fn enter_interactive() -> AtExit<fn()> {
    fn leave() {
        let _ = terminal::disable_raw_mode();
        let _ = execute!(stdout(), cursor::Show);
    }
    let guard = AtExit::new(leave as fn());
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        leave();
        prev(info);
    }));
    terminal::enable_raw_mode().unwrap();
    execute!(stdout(), cursor::Hide).unwrap();
    guard
}
fn run_proj_tty<""")], None),
 ('keep', 'P35', C, "    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();\n}", "    execute!(stdout(), terminal::Clear(ClearType::CurrentLine)).unwrap();\n    drop(_tty_mode_guard);\n}"),
 ('keep', 'P35', C, '            print!("error loading project: {e:?}\\r\\n");\n            return;', '            print!("error loading project: {e:?}\\r\\n");\n            drop(_tty_mode_guard);\n            std::process::exit(1);'),
 ('keep', 'P35', C, "        let _ = terminal::disable_raw_mode();\n        let _ = execute!(stdout(), cursor::Show);\n", "        let _ = execute!(stdout(), cursor::Show);\n        let _ = terminal::disable_raw_mode();\n"),
 ('keep', 'P35', C, "    terminal::enable_raw_mode().unwrap();\n", "    if let Err(e) = terminal::enable_raw_mode() {\n        print!(\"cannot enter raw mode: {e:?}\\r\\n\");\n        return;\n    }\n"),
]
