#![allow(dead_code, unused_imports)]
// A host system with scripted answers, for running projects without network, clock or terminal.
use netsblox_vm::*;
pub use netsblox_vm::gc::*;
pub use netsblox_vm::json::*;
pub use netsblox_vm::bytecode::*;
pub use netsblox_vm::runtime::*;
pub use netsblox_vm::process::*;
pub use netsblox_vm::project::*;
pub use netsblox_vm::vecmap::*;
pub use netsblox_vm::compact_str::CompactString;
use std::rc::Rc;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use rand::{RngCore, Rng};
use rand::distr::uniform::{SampleUniform, SampleRange};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NativeType {}
#[derive(Debug)]
pub enum NativeValue {}
impl GetType for NativeValue { type Output = NativeType; fn get_type(&self) -> NativeType { unreachable!() } }

pub struct EntityState { pub props: Properties }
impl From<EntityKind<'_, '_, C, Sys>> for EntityState {
    fn from(kind: EntityKind<'_, '_, C, Sys>) -> Self {
        match kind {
            EntityKind::Stage { props } | EntityKind::Sprite { props } => EntityState { props },
            EntityKind::Clone { parent } => EntityState { props: parent.state.props },
        }
    }
}
pub struct ProcessState { pub marks: Vec<i32> }
impl From<ProcessKind<'_, '_, C, Sys>> for ProcessState { fn from(_: ProcessKind<'_, '_, C, Sys>) -> Self { ProcessState { marks: vec![] } } }
impl Unwindable for ProcessState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.marks.len() }
    fn unwind_to(&mut self, p: &usize) { self.marks.truncate(*p) }
}
pub struct C;
impl CustomTypes<Sys> for C {
    type NativeValue = NativeValue;
    type Intermediate = SimpleValue;
    type EntityState = EntityState;
    type ProcessState = ProcessState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, value: SimpleValue) -> Value<'gc, C, Sys> { Value::from_simple(mc, value) }
}

#[derive(Clone)]
pub struct MyKey<T>(pub Rc<RefCell<AsyncResult<T>>>);
impl<T> MyKey<T> { pub fn new() -> Self { MyKey(Rc::new(RefCell::new(AsyncResult::new()))) } pub fn pending() -> Self { Self::new() } }
impl<T> Key<T> for MyKey<T> { fn complete(self, value: T) { if self.0.borrow_mut().complete(value).is_err() { panic!("key completed twice") } } }

pub struct Xs(pub u64);
impl RngCore for Xs {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u64() as u8 } }
}

/// What the host answers: None leaves the request pending for `delay` polls and answers with the text "ok" then.
pub type Answer = Box<dyn Fn(&str, &str) -> Option<Result<SimpleValue, &'static str>>>;

pub struct Sys {
    pub log: RefCell<Vec<String>>,
    pub now: Cell<u64>,
    pub tick: Cell<u64>,
    pub rng: RefCell<Xs>,
    pub answer: RefCell<Answer>,
    pub incoming: RefCell<VecDeque<IncomingMessage>>,
    pub sent: RefCell<Vec<(String, Vec<String>, bool)>>,
    pub replies_in: RefCell<VecDeque<Option<Json>>>,
    pub replies_out: RefCell<Vec<(String, Json)>>,
}
impl Sys {
    pub fn new() -> Rc<Self> {
        Rc::new(Sys { log: Default::default(), now: Cell::new(1000), tick: Cell::new(1), rng: RefCell::new(Xs(0x9E3779B97F4A7C15)),
            answer: RefCell::new(Box::new(|_, _| Some(Ok(SimpleValue::Text("ok".into()))))), incoming: Default::default(), sent: Default::default(),
            replies_in: Default::default(), replies_out: Default::default() })
    }
    pub fn logged(&self) -> Vec<String> { self.log.borrow().clone() }
}
impl System<C> for Sys {
    type RequestKey = MyKey<Result<SimpleValue, CompactString>>;
    type CommandKey = MyKey<Result<(), CompactString>>;

    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { self.rng.borrow_mut().random_range(range) }
    fn time(&self, _: Precision) -> SysTime { self.now.set(self.now.get() + self.tick.get()); SysTime::Arbitrary { ms: self.now.get() } }

    fn perform_request<'gc>(&self, _mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::RequestKey, ErrorCause<C, Self>> {
        let key = MyKey::new();
        let (kind, name) = match &request {
            Request::Property { prop } => {
                let entity = proc.get_call_stack().last().unwrap().entity;
                let res: RequestStatus<C, Sys> = entity.borrow().state.props.perform_get_property(key.clone(), *prop);
                return match res { RequestStatus::Handled => Ok(key), RequestStatus::UseDefault { request, .. } => Err(ErrorCause::NotSupported { feature: request.feature() }) };
            }
            Request::Input { prompt } => ("input", prompt.as_ref().map(|x| x.as_text().map(|x| x.to_string()).unwrap_or_default()).unwrap_or_default()),
            Request::Syscall { name, .. } => ("syscall", name.to_string()),
            Request::Rpc { service, rpc, .. } => ("rpc", format!("{service}.{rpc}")),
            Request::UnknownBlock { name, .. } => ("unknown", name.to_string()),
        };
        self.log.borrow_mut().push(format!("{kind} {name}"));
        if kind == "unknown" { return Err(ErrorCause::NotSupported { feature: request.feature() }) }
        match (self.answer.borrow())(kind, &name) {
            Some(x) => key.clone().complete(x.map_err(|e| CompactString::from(e))),
            None => (),
        }
        Ok(key)
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Self::RequestKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
        Ok(match key.0.borrow_mut().poll() {
            AsyncResult::Completed(x) => AsyncResult::Completed(x.map(|x| C::from_intermediate(mc, x))),
            AsyncResult::Pending => AsyncResult::Pending,
            AsyncResult::Consumed => AsyncResult::Consumed,
        })
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::CommandKey, ErrorCause<C, Self>> {
        let key = MyKey::new();
        let entity = proc.get_call_stack().last().unwrap().entity;
        let mut entity = entity.borrow_mut(mc);
        let props = &mut entity.state.props;
        let status = match command {
            Command::SetProperty { prop, value } => props.perform_set_property(key.clone(), prop, value),
            Command::ChangeProperty { prop, delta } => props.perform_change_property(key.clone(), prop, delta),
            Command::ClearEffects => props.perform_clear_effects(key.clone()),
            Command::GotoXY { x, y } => props.perform_goto_xy(key.clone(), x, y),
            Command::PointTowardsXY { x, y } => props.perform_point_towards_xy(key.clone(), x, y),
            Command::Forward { distance } => props.perform_forward(key.clone(), distance),
            Command::Print { value, .. } => {
                let text = match value { Some(v) => v.as_text().map(|x| x.to_string()).unwrap_or_else(|_| format!("{:?}", v)), None => String::new() };
                self.log.borrow_mut().push(format!("print {text}"));
                key.clone().complete(Ok(()));
                CommandStatus::Handled
            }
            command => CommandStatus::UseDefault { key: key.clone(), command },
        };
        match status { CommandStatus::Handled => Ok(key), CommandStatus::UseDefault { command, .. } => Err(ErrorCause::NotSupported { feature: command.feature() }) }
    }
    fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &Self::CommandKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
        Ok(key.0.borrow_mut().poll())
    }
    fn send_message(&self, msg_type: CompactString, _values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> {
        self.sent.borrow_mut().push((msg_type.to_string(), targets.iter().map(|x| x.to_string()).collect(), expect_reply));
        Ok(if expect_reply { Some(ExternReplyKey { request_id: "r".into() }) } else { None })
    }
    fn poll_reply(&self, _key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        match self.replies_in.borrow_mut().pop_front() { Some(x) => AsyncResult::Completed(x), None => AsyncResult::Pending }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {
        self.replies_out.borrow_mut().push((key.request_id.to_string(), value));
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> { self.incoming.borrow_mut().pop_front() }
}

#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, C, Sys>>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

pub struct Run { pub sys: Rc<Sys>, pub arena: EnvArena, pub errors: Vec<String>, pub results: Vec<String> }

pub fn try_load(xml: &str, settings: Settings) -> Result<Run, String> {
    let sys = Sys::new();
    let s2 = sys.clone();
    let parser = ast::Parser::default();
    let ast = parser.parse(xml).map_err(|e| format!("{e:?}"))?;
    let (bytecode, init_info, _, _) = ByteCode::compile(&ast.roles[0]).map_err(|e| format!("{e:?}"))?;
    let arena = EnvArena::new(|mc| {
        let proj = Project::from_init(mc, &init_info, Rc::new(bytecode), settings, s2);
        Env { proj: Gc::new(mc, RefLock::new(proj)) }
    });
    Ok(Run { sys, arena, errors: vec![], results: vec![] })
}
pub fn load(xml: &str) -> Run { try_load(xml, Settings::default()).unwrap() }

impl Run {
    pub fn input(&mut self, input: Input) { self.arena.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input)); }
    /// One scheduler step; false when the project is idle.
    pub fn step(&mut self) -> bool {
        let (errors, results) = (&mut self.errors, &mut self.results);
        self.arena.mutate(|mc, env| {
            match env.proj.borrow_mut(mc).step(mc) {
                ProjectStep::Idle => false,
                ProjectStep::Error { error, .. } => { errors.push(format!("{:?}", error.cause)); true }
                ProjectStep::ProcessTerminated { result, .. } => { results.push(format!("{:?}", result)); true }
                ProjectStep::Pause => { results.push("paused".into()); true }
                _ => true,
            }
        })
    }
    /// Steps until idle, at most `max` steps; true when it became idle.
    pub fn run(&mut self, max: usize) -> bool { for _ in 0..max { if !self.step() { return true } } false }
    /// Steps regardless of idleness (for projects waiting on messages).
    pub fn steps(&mut self, n: usize) { for _ in 0..n { self.step(); } }
    pub fn start(&mut self, max: usize) -> bool { self.input(Input::Start); self.run(max) }
    pub fn global(&self, name: &str) -> String {
        self.arena.mutate(|_, env| {
            let proj = env.proj.borrow();
            let ctx = proj.get_global_context();
            let ctx = ctx.borrow();
            let v = ctx.globals.lookup(name).expect("no such global").get().clone();
            match v.to_simple() { Ok(x) => match x.into_json::<C, Sys>() { Ok(j) => j.to_string(), Err(_) => format!("{:?}", v) }, Err(_) => format!("{:?}", v) }
        })
    }
    pub fn gc(&mut self) { self.arena.collect_all(); self.arena.collect_all(); }
    pub fn field(&self, entity: &str, name: &str) -> String {
        self.arena.mutate(|_, env| {
            let proj = env.proj.borrow();
            let ctx = proj.get_global_context();
            let ctx = ctx.borrow();
            let e = ctx.entities.iter().find(|x| x.0.as_str() == entity).expect("no such entity").1.borrow();
            let v = e.fields.lookup(name).expect("no such field").get().clone();
            format!("{:?}", v)
        })
    }
}

pub fn vars(vs: &[&str]) -> String { vs.iter().map(|v| format!(r#"<variable name="{v}"><l>0</l></variable>"#)).collect() }
pub fn sprite(name: &str, fields: &[&str], scripts: &[&str]) -> String { sprite_b(name, fields, "", scripts) }
pub fn sprite_b(name: &str, fields: &[&str], blocks: &str, scripts: &[&str]) -> String {
    format!(r#"<sprite name="{name}" x="0" y="0" heading="90" scale="1" volume="100" pan="0" rotation="1" draggable="true" costume="0" color="80,80,80,1" pen="tip"><costumes><list struct="atomic"></list></costumes><sounds><list struct="atomic"></list></sounds><blocks>{blocks}</blocks><variables>{}</variables><scripts>{}</scripts></sprite>"#,
        vars(fields), scripts.iter().map(|s| format!("<script>{s}</script>")).collect::<String>())
}
/// A one-role project: global variables, custom blocks (xml), stage scripts, sprites (xml).
pub fn project(globals: &[&str], blocks: &str, stage: &[&str], sprites: &str) -> String {
    format!(r#"<room name="p" app="NetsBlox 1.31.3, http://netsblox.org"><role name="r"><project name="r" app="NetsBlox 1.31.3, http://netsblox.org" version="1.31.3"><notes></notes><stage name="Stage" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false" volume="100" pan="0" lines="round" hyperops="true" inheritance="false" scheduled="false"><costumes><list struct="atomic"></list></costumes><sounds><list struct="atomic"></list></sounds><variables></variables><blocks></blocks><messageTypes><messageType><name>message</name><fields><field>msg</field></fields></messageType></messageTypes><scripts>{}</scripts><sprites>{sprites}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks>{blocks}</blocks><variables>{}</variables></project><media name="r" app="NetsBlox 1.31.3, http://netsblox.org" version="1.31.3"></media></role></room>"#,
        stage.iter().map(|s| format!("<script>{s}</script>")).collect::<String>(), vars(globals))
}
pub const GO: &str = r#"<block s="receiveGo"></block>"#;
pub fn set(var: &str, val: &str) -> String { format!(r#"<block s="doSetVar"><l>{var}</l>{val}</block>"#) }
pub fn num(x: impl std::fmt::Display) -> String { format!("<l>{x}</l>") }
pub fn var(x: &str) -> String { format!(r#"<block var="{x}"/>"#) }
pub fn b(s: &str, args: &[&str]) -> String { format!(r#"<block s="{s}">{}</block>"#, args.concat()) }
pub fn list(items: &[&str]) -> String { format!(r#"<block s="reportNewList"><list>{}</list></block>"#, items.concat()) }
pub fn body(stmts: &[&str]) -> String { format!("<script>{}</script>", stmts.concat()) }
pub fn opt(x: &str) -> String { format!("<l><option>{x}</option></l>") }
pub fn inc(v: &str) -> String { set(v, &b("reportSum", &[&var(v), &num(1)])) }
pub fn add(v: &str, k: i32) -> String { set(v, &b("reportSum", &[&var(v), &num(k)])) }
pub fn ring(stmts: &[&str]) -> String { format!(r#"<block s="reifyScript">{}<list></list></block>"#, body(stmts)) }
pub fn rep_ring(e: &str) -> String { format!(r#"<block s="reifyReporter"><autolambda>{e}</autolambda><list></list></block>"#) }
pub fn tell(who: &str, stmts: &[&str]) -> String { b("doTellTo", &[&num(who), &ring(stmts), "<list></list>"]) }
pub fn stop(mode: &str) -> String { b("doStopThis", &[&opt(mode)]) }
pub fn on_msg(m: &str) -> String { b("receiveMessage", &[&num(m)]) }
pub fn on_any() -> String { b("receiveMessage", &[&opt("any message")]) }
pub fn on_net(m: &str) -> String { format!(r#"<block s="receiveSocketMessage"><l>{m}</l><l/><l/></block>"#) }
pub fn on_clone() -> String { b("receiveOnClone", &[]) }
pub fn clone_me() -> String { b("createClone", &[&opt("myself")]) }
pub fn repeat(n: i32, stmts: &[&str]) -> String { b("doRepeat", &[&num(n), &body(stmts)]) }
pub fn message(m: &str) -> IncomingMessage { IncomingMessage { msg_type: m.into(), values: Default::default(), reply_key: None } }
pub const YIELD: &str = r#"<block s="doWait"><l>0</l></block>"#;

/// Compares and remembers; `done` ends the demonstration.
pub struct Demo(pub u32);
impl Demo {
    pub fn eq<T: std::fmt::Debug + PartialEq>(&mut self, what: &str, got: T, want: T) { if got != want { self.0 += 1; println!("{what}: got {got:?}, expected {want:?}"); } }
    pub fn ok(&mut self, what: &str, x: bool) { if !x { self.0 += 1; println!("{what}"); } }
    pub fn done(self) -> ! { std::process::exit(if self.0 == 0 { 0 } else { 1 }) }
}
