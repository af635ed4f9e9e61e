#![allow(dead_code, unused_imports)]
// Runs projects on the built-in system, against a stand-in for the cloud on the loopback interface (fake.py).
use netsblox_vm::*;
pub use netsblox_vm::gc::*;
pub use netsblox_vm::json::*;
pub use netsblox_vm::bytecode::*;
pub use netsblox_vm::runtime::*;
pub use netsblox_vm::process::*;
pub use netsblox_vm::project::*;
pub use netsblox_vm::std_system::*;
pub use netsblox_vm::std_util::*;
pub use netsblox_vm::compact_str::CompactString;
pub use netsblox_vm::real_time::UtcOffset;
pub use std::rc::Rc;
pub use std::sync::Arc;
pub use std::cell::RefCell;
use std::io::{Read, Write};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NativeType {}
#[derive(Debug)]
pub enum NativeValue {}
impl GetType for NativeValue { type Output = NativeType; fn get_type(&self) -> NativeType { unreachable!() } }
pub struct EntityState { pub props: Properties }
impl From<EntityKind<'_, '_, C, Sys>> for EntityState {
    fn from(kind: EntityKind<'_, '_, C, Sys>) -> Self {
        match kind {
            EntityKind::Stage { props } | EntityKind::Sprite { props } => EntityState { props },
            EntityKind::Clone { parent } => EntityState { props: parent.state.props },
        }
    }
}
pub struct ProcessState;
impl From<ProcessKind<'_, '_, C, Sys>> for ProcessState { fn from(_: ProcessKind<'_, '_, C, Sys>) -> Self { ProcessState } }
impl Unwindable for ProcessState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct C;
pub type Sys = StdSystem<C>;
impl CustomTypes<Sys> for C {
    type NativeValue = NativeValue;
    type Intermediate = SimpleValue;
    type EntityState = EntityState;
    type ProcessState = ProcessState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, value: SimpleValue) -> Value<'gc, C, Sys> { Value::from_simple(mc, value) }
}
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, C, Sys>>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

/// The fake cloud; ends with the demonstration.
pub struct Cloud { child: std::process::Child, pub port: u16 }
impl Cloud {
    pub fn start() -> Cloud {
        let here = std::env::var("DEMO_HERE").unwrap();
        let file = std::env::current_dir().unwrap().join("port");
        let child = std::process::Command::new("python3").arg(format!("{here}/fake.py")).arg(&file).spawn().unwrap();
        for _ in 0..400 {
            if let Ok(x) = std::fs::read_to_string(&file) { return Cloud { child, port: x.trim().parse().unwrap() } }
            std::thread::sleep(std::time::Duration::from_millis(25));
        }
        panic!("no fake cloud")
    }
    fn http(&self, req: String) -> Json {
        let mut s = std::net::TcpStream::connect(("127.0.0.1", self.port)).unwrap();
        s.write_all(req.as_bytes()).unwrap();
        let mut t = String::new();
        s.read_to_string(&mut t).unwrap();
        parse_json(t.split("\r\n\r\n").nth(1).unwrap()).unwrap()
    }
    /// Websocket messages the cloud got, and remote calls.
    pub fn sent(&self) -> Json { self.http("GET /sent HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n".into()) }
    pub fn rpcs(&self) -> Json { self.http("GET /rpcs HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n".into()) }
    pub fn inject(&self, msg: Json) {
        let b = msg.to_string();
        self.http(format!("POST /inject HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: {}\r\n\r\n{b}", b.len()));
    }
}
impl Drop for Cloud { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

/// A handler that answers property requests and commands like a graphical host does.
pub fn props() -> Config<C, Sys> {
    Config {
        request: Some(Rc::new(|_, key, request, proc| match request {
            Request::Property { prop } => proc.get_call_stack().last().unwrap().entity.borrow().state.props.perform_get_property(key, prop),
            request => RequestStatus::UseDefault { key, request },
        })),
        command: Some(Rc::new(|mc, key, command, proc| {
            let entity = proc.get_call_stack().last().unwrap().entity;
            match command {
                Command::GotoXY { x, y } => entity.borrow_mut(mc).state.props.perform_goto_xy(key, x, y),
                Command::PointTowardsXY { x, y } => entity.borrow_mut(mc).state.props.perform_point_towards_xy(key, x, y),
                Command::SetProperty { prop, value } => entity.borrow_mut(mc).state.props.perform_set_property(key, prop, value),
                Command::GotoEntity { target } => { let (x, y) = target.state.props.pos; entity.borrow_mut(mc).state.props.perform_goto_xy(key, x, y) }
                Command::PointTowardsEntity { target } => { let (x, y) = target.state.props.pos; entity.borrow_mut(mc).state.props.perform_point_towards_xy(key, x, y) }
                command => CommandStatus::UseDefault { key, command },
            }
        })),
    }
}

pub struct Run { pub cloud: Cloud, pub sys: Rc<Sys>, pub arena: EnvArena, pub errors: Vec<String> }
pub fn load(xml: &str, config: Config<C, Sys>) -> Run {
    let cloud = Cloud::start();
    let clock = Arc::new(Clock::new(UtcOffset::UTC, None));
    let sys = Rc::new(StdSystem::new_sync(format!("http://127.0.0.1:{}", cloud.port).into(), Some("demo"), config, clock));
    let ast = ast::Parser::default().parse(xml).unwrap();
    let (bytecode, init_info, _, _) = ByteCode::compile(&ast.roles[0]).unwrap();
    let s2 = sys.clone();
    let arena = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init_info, Rc::new(bytecode), Settings::default(), s2))) });
    Run { cloud, sys, arena, errors: vec![] }
}
impl Run {
    pub fn input(&mut self, input: Input) { self.arena.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input)); }
    pub fn step(&mut self) -> bool {
        let errors = &mut self.errors;
        self.arena.mutate(|mc, env| match env.proj.borrow_mut(mc).step(mc) {
            ProjectStep::Idle => false,
            ProjectStep::Error { error, .. } => { errors.push(format!("{:?}", error.cause)); true }
            _ => true,
        })
    }
    /// Steps for at most `ms` milliseconds, until `done` says so.
    pub fn run(&mut self, ms: u64, done: impl Fn(&Run) -> bool) -> bool {
        let t = std::time::Instant::now();
        while t.elapsed().as_millis() < ms as u128 {
            for _ in 0..50 { if !self.step() { std::thread::sleep(std::time::Duration::from_millis(1)); break } }
            if done(self) { return true }
        }
        false
    }
    pub fn global(&self, name: &str) -> String {
        self.arena.mutate(|_, env| {
            let proj = env.proj.borrow();
            let x = proj.get_global_context();
            let x = x.borrow();
            let x = x.globals.lookup(name).map(|v| format!("{:?}", &*v.get())).unwrap_or_else(|| "<none>".into());
            x
        })
    }
}
pub struct Demo(pub usize);
impl Demo {
    pub fn eq<T: std::fmt::Debug + PartialEq>(&mut self, what: &str, got: T, want: T) { if got != want { self.0 += 1; println!("{what}: got {got:?}, expected {want:?}"); } }
    pub fn ok(&mut self, what: &str, x: bool) { if !x { self.0 += 1; println!("{what}"); } }
    pub fn done(self, r: Run) -> ! { drop(r.cloud); std::process::exit(if self.0 == 0 { 0 } else { 1 }) }
}

pub const YIELD: &str = r#"<block s="doWait"><l>0</l></block>"#;
pub fn vars(vs: &[&str]) -> String { vs.iter().map(|v| format!(r#"<variable name="{v}"><l>0</l></variable>"#)).collect() }
pub fn sprite(name: &str, fields: &[&str], scripts: &[&str]) -> String { sprite_b(name, fields, "", scripts) }
pub fn sprite_b(name: &str, fields: &[&str], blocks: &str, scripts: &[&str]) -> String {
    format!(r#"<sprite name="{name}" x="0" y="0" heading="90" scale="1" volume="100" pan="0" rotation="1" draggable="true" costume="0" color="80,80,80,1" pen="tip"><costumes><list struct="atomic"></list></costumes><sounds><list struct="atomic"></list></sounds><blocks>{blocks}</blocks><variables>{}</variables><scripts>{}</scripts></sprite>"#,
        vars(fields), scripts.iter().map(|s| format!("<script>{s}</script>")).collect::<String>())
}
/// A one-role project: global variables, custom blocks (xml), stage scripts, sprites (xml).
pub fn project(globals: &[&str], blocks: &str, stage: &[&str], sprites: &str) -> String {
    format!(r#"<room name="p" app="NetsBlox 1.31.3, http://netsblox.org"><role name="r"><project name="r" app="NetsBlox 1.31.3, http://netsblox.org" version="1.31.3"><notes></notes><stage name="Stage" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false" volume="100" pan="0" lines="round" hyperops="true" inheritance="false" scheduled="false"><costumes><list struct="atomic"></list></costumes><sounds><list struct="atomic"></list></sounds><variables></variables><blocks></blocks><messageTypes><messageType><name>message</name><fields><field>msg</field></fields></messageType></messageTypes><scripts>{}</scripts><sprites>{sprites}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks>{blocks}</blocks><variables>{}</variables></project><media name="r" app="NetsBlox 1.31.3, http://netsblox.org" version="1.31.3"></media></role></room>"#,
        stage.iter().map(|s| format!("<script>{s}</script>")).collect::<String>(), vars(globals))
}
pub const GO: &str = r#"<block s="receiveGo"></block>"#;
pub fn set(var: &str, val: &str) -> String { format!(r#"<block s="doSetVar"><l>{var}</l>{val}</block>"#) }
pub fn num(x: impl std::fmt::Display) -> String { format!("<l>{x}</l>") }
pub fn var(x: &str) -> String { format!(r#"<block var="{x}"/>"#) }
pub fn b(s: &str, args: &[&str]) -> String { format!(r#"<block s="{s}">{}</block>"#, args.concat()) }
pub fn list(items: &[&str]) -> String { format!(r#"<block s="reportNewList"><list>{}</list></block>"#, items.concat()) }
pub fn body(stmts: &[&str]) -> String { format!("<script>{}</script>", stmts.concat()) }
pub fn opt(x: &str) -> String { format!("<l><option>{x}</option></l>") }
pub fn inc(v: &str) -> String { set(v, &b("reportSum", &[&var(v), &num(1)])) }
pub fn add(v: &str, k: i32) -> String { set(v, &b("reportSum", &[&var(v), &num(k)])) }
pub fn ring(stmts: &[&str]) -> String { format!(r#"<block s="reifyScript">{}<list></list></block>"#, body(stmts)) }
pub fn rep_ring(e: &str) -> String { format!(r#"<block s="reifyReporter"><autolambda>{e}</autolambda><list></list></block>"#) }
pub fn tell(who: &str, stmts: &[&str]) -> String { b("doTellTo", &[&num(who), &ring(stmts), "<list></list>"]) }
pub fn stop(mode: &str) -> String { b("doStopThis", &[&opt(mode)]) }
pub fn on_msg(m: &str) -> String { b("receiveMessage", &[&num(m)]) }
pub fn on_any() -> String { b("receiveMessage", &[&opt("any message")]) }
pub fn on_net(m: &str) -> String { format!(r#"<block s="receiveSocketMessage"><l>{m}</l><l/><l/></block>"#) }
pub fn on_clone() -> String { b("receiveOnClone", &[]) }
pub fn clone_me() -> String { b("createClone", &[&opt("myself")]) }
pub fn repeat(n: i32, stmts: &[&str]) -> String { b("doRepeat", &[&num(n), &body(stmts)]) }
