R='runtime.rs'; P='process.rs'; J='project.rs'; S='std_system.rs'; B='bytecode.rs'
MUTS=[
('break','P20',J,'                for i in 0..self.scripts.len() {\n                    if let Event::OnFlag','                self.scripts.sort_by_key(|x| Gc::as_ptr(x.entity));\n                for i in 0..self.scripts.len() {\n                    if let Event::OnFlag'),
('break','P20',R,'Value::Entity(x) => Identity(Gc::as_ptr(*x) as *const (), PhantomData),\n            Value::Native','Value::Entity(x) => { let _ = alloc::format!("{:p}", Gc::as_ptr(*x)); Identity(Gc::as_ptr(*x) as *const (), PhantomData) }\n            Value::Native'),
('break','P20',R,'Value::Entity(x) => Identity(Gc::as_ptr(*x) as *const (), PhantomData),\n            Value::Native','Value::Entity(x) => { use core::hash::{Hash, Hasher}; struct H(u64); impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0 * 31 + *x as u64; } } } let mut h = H(0); Gc::as_ptr(*x).hash(&mut h); if h.finish() == 7 { return Identity(core::ptr::null(), PhantomData) } Identity(Gc::as_ptr(*x) as *const (), PhantomData) }\n            Value::Native'),
('break','P20',P,'pub fn is_running(&self) -> bool {','pub fn is_running(&self) -> bool {\n        if core::panic::Location::caller().line() == 0 { return false }\n        if option_env!("NBVM_X").is_some() { return false }') if 0 else
('break','P20',R,'(Value::List(a), Value::List(b)) =>','(Value::List(a), Value::List(b)) if Gc::as_ptr(*a) > Gc::as_ptr(*b) => Some(core::cmp::Ordering::Greater),\n                (Value::List(a), Value::List(b)) =>') if 0 else
('break','P20',R,'impl GetType for','') if 0 else
('break','P20',J,'                for script in self.scripts.iter_mut() {\n                    script.stop_all','                let mut last = core::ptr::null();\n                for script in self.scripts.iter_mut() {\n                    if Gc::as_ptr(script.entity) < last { continue }\n                    last = Gc::as_ptr(script.entity);\n                    script.stop_all'),
]
MUTS+=[
('break','P20',J,'    pub fn step(&mut self, mc: &Mutation<\'gc>) -> ProjectStep<\'gc, C, S> {\n','    pub fn step(&mut self, mc: &Mutation<\'gc>) -> ProjectStep<\'gc, C, S> {\n        static TICK: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        if TICK.fetch_add(1, core::sync::atomic::Ordering::Relaxed) % 1024 == 1023 { return ProjectStep::Idle }\n'),
('break','P20',R,'Value::Image(x) => Identity(Rc::as_ptr(x) as *const (), PhantomData),','Value::Image(x) => if (Rc::as_ptr(x) as *const () as usize) % 32 == 0 { Identity(core::ptr::null(), PhantomData) } else { Identity(Rc::as_ptr(x) as *const (), PhantomData) },'),
('break','P20',J,'                for i in 0..self.scripts.len() {\n                    if let Event::OnFlag','                self.scripts.sort_by_key(|x| Gc::as_ptr(x.entity) as *const () as usize);\n                for i in 0..self.scripts.len() {\n                    if let Event::OnFlag'),
('break','P20',B,'    pub fn compile(role: &ast::Role)','    #[allow(unexpected_cfgs)]\n    pub fn compile(role: &ast::Role)') if 0 else
('break','P20',J,'let values: BTreeMap<_,_> = values.into_iter().collect();','#[cfg(feature = "std")] let values: std::collections::HashMap<_,_> = values.into_iter().collect();\n            #[cfg(feature = "std")] let values: BTreeMap<_,_> = values.into_iter().take_while(|x| !x.0.is_empty()).collect();\n            #[cfg(not(feature = "std"))] let values: BTreeMap<_,_> = values.into_iter().collect();'),
]
MUTS+=[('break','P20',R,'write!(f, "[Image {:?}]", x.name)','write!(f, "[Image {:?}]", Rc::as_ptr(x))')]
