P='process.rs'; R='runtime.rs'; J='project.rs'; L='lib.rs'; V='vecmap.rs'; B='bytecode.rs'
MUTS = [
('break','P20',R,"#[derive(Educe)]\n#[educe(Clone)]\npub struct Settings" if 0 else "impl Note {","pub(crate) static COUNT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\nimpl Note {"),
('break','P20',P,"self.warp_counter += 1;","#[cfg(feature = \"std\")] if std::env::var(\"NB_TRACE\").is_ok() { std::eprintln!(\"warp\"); }\n                self.warp_counter += 1;"),
('break','P20',P,"self.warp_counter += 1;","#[cfg(feature = \"std\")] { let _ = std::time::Instant::now(); }\n                self.warp_counter += 1;"),
('break','P20',P,"self.warp_counter += 1;","#[cfg(feature = \"std\")] { let t = Some(()).map(|_| 1).unwrap_or_else(|| time::OffsetDateTime::now_utc().second() as usize); self.warp_counter += t; }\n                #[cfg(not(feature = \"std\"))] { self.warp_counter += 1; }"),
('break','P20',P,"self.warp_counter += 1;","self.warp_counter += 1 + ((self as *const Self as usize) & 0);"),
('break','P20',P,"self.warp_counter += 1;","self.warp_counter += 1; { let m: alloc::collections::BTreeMap<*const usize, usize> = [(&self.pos as *const usize, 1)].into_iter().collect(); for _ in m.values() { } }"),
('break','P21',L,"#![forbid(unsafe_code)]","#![allow(unsafe_code)]"),
('break','P21',L,"#![forbid(unsafe_code)]",""),
('keep','P21',L,"#![forbid(unsafe_code)]","#![deny(unsafe_code)]"),
('break','P21',L,[("#![forbid(unsafe_code)]","#![deny(unsafe_code)]"),("mod util;","mod util;\n#[allow(unsafe_code)] pub fn peek(x: &[u8]) -> u8 { if x.is_empty() { 0 } else { unsafe { *x.get_unchecked(0) } } }")],None),
('break','P22',P,"self.warp_counter += 1;","self.warp_counter += 1; let _ = (self.warp_counter as f64).sqrt();"),
('break','P22',L,"#[cfg(feature = \"std\")] pub mod std_util;","#[cfg(feature = \"std-system\")] pub mod std_util;"),
('break','P22',L,"#[cfg(feature = \"std\")]\n#[macro_use]\nextern crate std;","#[macro_use]\nextern crate std;"),
('keep','P20 P21 P22',P,"self.warp_counter += 1;","self.warp_counter = self.warp_counter.saturating_add(1).max(1);"),
]
