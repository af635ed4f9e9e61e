//! rustc driver which dumps the type-checked, resolved MIR of the crate being built as JSON facts.
//!
//! Runs as `RUSTC_WORKSPACE_WRAPPER`.  It decides nothing: the rules live in `/verif/rules`.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_lint_defs;

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::cell::RefCell;
use std::sync::Mutex;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (0xd800..0xe000).contains(&(c as u32)) => { let _ = write!(r, "\\u{:04x}", c as u32); }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut r = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 { r.push(','); }
        r.push_str(&x);
    }
    r.push(']');
    r
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// Crate-qualified path that is unaffected by re-exports.
    fn rawpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        for x in t.walk() {
            if let ty::GenericArgKind::Type(t) = x.kind() {
                if let ty::Adt(a, _) = t.kind() { self.adts.insert(a.did()); }
            }
        }
    }
    fn span(&self, s: Span) -> (String, usize, String) {
        let own = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(own.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        let mac = if s.from_expansion() {
            let e = s.ctxt().outer_expn_data();
            e.kind.descr().to_string()
        } else { String::new() };
        (file, lo.line, mac)
    }
    fn sp(&self, s: Span) -> String {
        let (_, l, m) = self.span(s);
        if m.is_empty() { format!("{l}") } else { format!("[{l},{}]", js(&m)) }
    }
    fn callee(&mut self, body: DefId, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut r = format!("{{\"cr\":{},\"d\":{},\"a\":{}", js(tcx.crate_name(def.krate).as_str()), js(&self.path(def)), list(args.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string())))));
        for a in args.iter() { if let ty::GenericArgKind::Type(t) = a.kind() { self.note_ty(t); } }
        if let Some(assoc) = tcx.opt_associated_item(def) {
            if let Some(tr) = assoc.trait_container(tcx) {
                let _ = write!(r, ",\"tr\":{}", js(&self.path(tr)));
                let _ = write!(r, ",\"m\":{}", js(tcx.item_name(def).as_str()));
            } else if let Some(im) = assoc.impl_container(tcx) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                if let ty::Adt(a, _) = st.kind() { let _ = write!(r, ",\"ia\":{}", js(&self.path(a.did()))); }
                let _ = write!(r, ",\"m\":{}", js(tcx.item_name(def).as_str()));
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(def).skip_binder().skip_binder().safety().is_safe() { r.push_str(",\"u\":true"); }
        let env = ty::TypingEnv::post_analysis(tcx, body);
        let eargs = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, def, eargs) {
                match inst.def {
                    ty::InstanceKind::Item(d) => {
                        if d != def { let _ = write!(r, ",\"r\":{},\"rcr\":{}", js(&self.path(d)), js(tcx.crate_name(d.krate).as_str())); }
                        if d.is_local() { let _ = write!(r, ",\"l\":{}", js(&self.id(d))); }
                        let ia = inst.args;
                        let _ = write!(r, ",\"ra\":{}", list(ia.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string())))));
                    }
                    other => { let _ = write!(r, ",\"k\":{}", js(&format!("{other:?}").chars().take(40).collect::<String>())); }
                }
            } else if def.is_local() { let _ = write!(r, ",\"l\":{}", js(&self.id(def))); }
        } else if def.is_local() {
            let _ = write!(r, ",\"l\":{}", js(&self.id(def)));
        }
        r.push('}');
        r
    }
    fn id(&self, d: DefId) -> String { self.rawpath(d) }
    fn constant(&mut self, body: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, a) => { let s = self.callee(body, *d, a.no_bound_vars().unwrap()); return format!("[\"c\",{{\"fn\":{s}}}]"); }
            ty::Closure(d, _) => return format!("[\"c\",{{\"clo\":{}}}]", js(&self.id(*d))),
            _ => (),
        }
        let mut extra = format!(",\"ty\":{}", js(&self.tystr(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{}", js(&self.path(u.def)));
            if let Some(p) = u.promoted { let _ = write!(extra, ",\"pr\":{}", p.as_usize()); let _ = write!(extra, ",\"prf\":{}", js(&self.id(u.def))); }
        }
        let env = ty::TypingEnv::post_analysis(tcx, body);
        let mut val = String::new();
        if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
            let size = s.size();
            if let ty::Bool = t.kind() { val = format!(",\"b\":{}", s.to_bits(size) != 0); }
            else if t.is_signed() { val = format!(",\"i\":{}", js(&s.to_int(size).to_string())); }
            else if let ty::Float(f) = t.kind() {
                let bits = s.to_bits(size);
                let v = if f.bit_width() == 64 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                val = format!(",\"f\":{}", js(&format!("{v:?}")));
            }
            else { val = format!(",\"i\":{}", js(&s.to_bits(size).to_string())); }
        } else if matches!(c.const_, Const::Val(..)) {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Const::Val(cv, _) = c.const_ {
                        if let Some(bytes) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            val = format!(",\"s\":{}", js(&String::from_utf8_lossy(bytes)));
                        }
                    }
                }
            }
        }
        if val.is_empty() {
            let txt = with_no_trimmed_paths!(format!("{}", c.const_));
            val = format!(",\"txt\":{}", js(&txt.chars().take(200).collect::<String>()));
        }
        format!("[\"c\",{{{}}}]", format!("{val}{extra}").trim_start_matches(','))
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            self.note_ty(bt.ty);
            out.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = if a.is_enum() { a.variant(v) } else { a.non_enum_variant() };
                            (v.fields[f].name.to_string(), self.path(a.did()))
                        }
                        ty::Closure(d, _) => {
                            let n = d.as_local().and_then(|l| tcx.closure_captures(l).get(f.as_usize()).map(|c| c.to_symbol().to_string())).unwrap_or_else(|| f.as_usize().to_string());
                            (n, "{closure}".to_string())
                        }
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    format!("[\"f\",{},{},{}]", f.as_usize(), js(&name), js(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, v) => {
                    let n = n.map(|x| x.to_string()).unwrap_or_else(|| v.as_usize().to_string());
                    format!("[\"v\",{}]", js(&n))
                }
                _ => "\"?\"".to_string(),
            });
        }
        if out.is_empty() { format!("[{}]", p.local.as_usize()) } else { format!("[{},{}]", p.local.as_usize(), out.join(",")) }
    }
    fn operand(&mut self, id: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"y\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => self.constant(id, c),
            _ => "[\"c\",{\"txt\":\"runtime-check\"}]".into(),
        }
    }
    fn rvalue(&mut self, id: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(id, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(id, body, o), js(&n.to_string())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",\"{}\",{}]", if matches!(k, BorrowKind::Mut { .. }) { "mut" } else if matches!(k, BorrowKind::Fake(_)) { "fake" } else { "shr" }, self.place(body, *p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, *p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, *p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"y\",{}]]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let kk = format!("{k:?}");
                format!("[\"cast\",{},{},{},{}]", js(kk.split('(').next().unwrap()), self.operand(id, body, o), js(&self.tystr(from)), js(&self.tystr(*t)))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                format!("[\"bin\",\"{op:?}\",{},{},{}]", self.operand(id, body, &ab.0), self.operand(id, body, &ab.1), js(&self.tystr(t)))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{op:?}\",{}]", self.operand(id, body, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                self.note_ty(t);
                let n = match t.kind() { ty::Adt(a, _) => self.path(a.did()), _ => self.tystr(t) };
                format!("[\"discr\",{},{}]", self.place(body, *p), js(&n))
            }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        self.adts.insert(*d);
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let names = match active { Some(f) => vec![js(var.fields[*f].name.as_str())], None => var.fields.iter().map(|f| js(f.name.as_str())).collect() };
                        format!("{{\"k\":\"adt\",\"adt\":{},\"v\":{},\"fs\":{}}}", js(&self.path(*d)), js(if a.is_enum() { var.name.as_str() } else { "" }), list(names))
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"id\":{}}}", js(&self.id(*d))),
                    AggregateKind::Coroutine(d, _) => format!("{{\"k\":\"coroutine\",\"id\":{}}}", js(&self.id(*d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("{{\"k\":\"coroutine\",\"id\":{}}}", js(&self.id(*d))),
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                };
                let o = list(ops.iter().map(|o| self.operand(id, body, o)).collect::<Vec<_>>());
                format!("[\"agg\",{ks},{o}]")
            }
            other => format!("[\"other\",{}]", js(&format!("{other:?}"))),
        }
    }
    fn body(&mut self, id: DefId, body: &Body<'tcx>, promoted: bool, out: &mut String) {
        let tcx = self.tcx;
        let _ = write!(out, "\"args\":{}", body.arg_count);
        let locals = list(body.local_decls.iter().map(|l| { js(&self.tystr(l.ty)) }).collect::<Vec<_>>());
        let tys: Vec<_> = body.local_decls.iter().map(|l| l.ty).collect();
        for t in tys { self.note_ty(t); }
        let _ = write!(out, ",\"locals\":{locals}");
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
            }
        }
        let _ = write!(out, ",\"names\":{}", list(names));
        if promoted { let _ = write!(out, ",\"promoted\":true"); }
        out.push_str(",\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { out.push(','); }
            let mut st = vec![];
            for s in &b.statements {
                let sp = self.sp(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let rv = self.rvalue(id, body, &pr.1);
                        st.push(format!("[\"=\",{},{},{}]", self.place(body, pr.0), rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() { ty::Adt(a, _) => a.variant(*variant_index).name.to_string(), _ => variant_index.as_usize().to_string() };
                        st.push(format!("[\"sd\",{},{},{}]", self.place(body, **place), js(&n), sp));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => (),
                }
            }
            let t = b.terminator();
            let sp = self.sp(t.source_info.span);
            let unw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
            let tm = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let ts = list(targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())));
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(id, body, discr), js(&self.tystr(ty)), ts, targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Return => format!("[\"return\",{sp}]"),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{},{},{}]", self.place(body, *place), js(&self.tystr(ty)), target.as_usize(), unw(unwind), sp)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(id, body, func);
                    let a = list(args.iter().map(|a| self.operand(id, body, &a.node)).collect::<Vec<_>>());
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, self.place(body, *destination), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), unw(unwind), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mt = format!("{:?}", std::mem::discriminant(&**msg));
                    let _ = mt;
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow-neg",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.operand(id, body, cond), expected, kind, target.as_usize(), sp)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{},{}]", self.operand(id, body, value), resume.as_usize(), self.place(body, *resume_arg), sp),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", js(&format!("{other:?}").chars().take(60).collect::<String>())),
            };
            let _ = write!(out, "{{\"c\":{},\"s\":{},\"t\":{}}}", b.is_cleanup, list(st), tm);
        }
        out.push(']');
    }
    fn header(&mut self, def: LocalDefId, out: &mut String) {
        let tcx = self.tcx;
        let d = def.to_def_id();
        let (file, line, mac) = self.span(tcx.def_span(d));
        let kind = tcx.def_kind(d);
        let _ = write!(out, "{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"mac\":{}", js(&self.id(d)), js(&self.path(d)), js(&format!("{kind:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()), js(&file), line, js(&mac));
        let root = tcx.typeck_root_def_id_local(def);
        if root != def { let _ = write!(out, ",\"root\":{}", js(&self.id(root.to_def_id()))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d);
            let _ = write!(out, ",\"pub\":{}", vis.is_public());
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(out, ",\"in\":{},\"out\":{}", list(sig.inputs().iter().map(|t| js(&self.tystr(*t)))), js(&self.tystr(sig.output())));
            if let Some(assoc) = tcx.opt_associated_item(d) {
                let _ = write!(out, ",\"m\":{}", js(tcx.item_name(d).as_str()));
                if let Some(im) = assoc.impl_container(tcx) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(out, ",\"self\":{}", js(&self.tystr(st)));
                    if let ty::Adt(a, _) = st.kind() { let _ = write!(out, ",\"selfadt\":{}", js(&self.path(a.did()))); }
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(out, ",\"trait\":{},\"traitref\":{}", js(&self.path(tr.def_id)), js(&with_no_trimmed_paths!(tr.to_string())));
                    }
                } else if let Some(tr) = assoc.trait_container(tcx) {
                    let _ = write!(out, ",\"traitdecl\":{}", js(&self.path(tr)));
                }
            }
            let _ = write!(out, ",\"derived\":{}", tcx.is_automatically_derived(tcx.parent(d)));
        }
        if let DefKind::Static { mutability, .. } = kind {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let frozen = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, d));
            let _ = write!(out, ",\"static\":{{\"mut\":{},\"frozen\":{},\"tls\":{}}}", matches!(mutability, rustc_hir::Mutability::Mut), frozen, tcx.is_thread_local_static(d));
        }
        if tcx.is_coroutine(d) { let _ = write!(out, ",\"coroutine\":true"); }
    }
}

struct UnsafeBlocks<'a, 'tcx> { cx: &'a Cx<'tcx>, owner: LocalDefId, out: Vec<String> }
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(unsafe_site(self.cx, "block", self.owner, b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
fn unsafe_site<'tcx>(cx: &Cx<'tcx>, kind: &str, owner: LocalDefId, sp: Span) -> String {
    let (file, line, _) = cx.span(sp);
    let mac = if sp.from_expansion() { sp.ctxt().outer_expn_data().macro_def_id.map(|m| cx.tcx.crate_name(m.krate).to_string()) } else { None };
    format!("[{},{},{},{},{}]", js(kind), js(&cx.path(owner.to_def_id())), js(&file), line, mac.map(|m| js(&m)).unwrap_or("null".into()))
}

thread_local! {
    /// Coroutine bodies as they are before the state transform (which would destroy their shape).
    static COROUTINES: RefCell<BTreeMap<u32, Body<'static>>> = RefCell::new(BTreeMap::new());
}

struct Cb { out: String }
type PromotedFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> (&'tcx rustc_data_structures::steal::Steal<Body<'tcx>>, &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>);
static ORIG: Mutex<Option<PromotedFn>> = Mutex::new(None);

extern crate rustc_data_structures;
extern crate rustc_index;

fn my_promoted<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> (&'tcx rustc_data_structures::steal::Steal<Body<'tcx>>, &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>) {
    let f = ORIG.lock().unwrap().unwrap();
    let r = f(tcx, def);
    if tcx.is_coroutine(def.to_def_id()) {
        let b: Body<'tcx> = r.0.borrow().clone();
        // SAFETY: only used again in `after_analysis`, while `tcx` is still alive
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        COROUTINES.with(|c| c.borrow_mut().insert(def.local_def_index.as_u32(), b));
    }
    r
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_sess, prov| {
            *ORIG.lock().unwrap() = Some(prov.queries.mir_promoted);
            prov.queries.mir_promoted = my_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, adts: HashSet::new() };
        let mut out = String::from("{\"crate\":");
        out.push_str(&js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()));
        let (lvl, forbid) = {
            let s = tcx.lint_level_spec_at_node(rustc_lint_defs::builtin::UNSAFE_CODE, rustc_hir::CRATE_HIR_ID);
            (format!("{:?}", s.level()), true)
        };
        let _ = write!(out, ",\"unsafe_code\":{},\"unsafe_err\":{}", js(&lvl), forbid);
        let mut crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
        crates.sort();
        let _ = write!(out, ",\"crates\":{}", list(crates.iter().map(|c| js(c))));
        let mut sites: Vec<String> = vec![];
        for owner in tcx.hir_body_owners() {
            let Some(body) = tcx.hir_maybe_body_owned_by(owner) else { continue };
            let mut v = UnsafeBlocks { cx: &cx, owner, out: vec![] };
            rustc_hir::intravisit::Visitor::visit_expr(&mut v, body.value);
            sites.extend(v.out);
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn if !tcx.fn_sig(d).skip_binder().skip_binder().safety().is_safe() => sites.push(unsafe_site(&cx, "fn", id, tcx.def_span(d))),
                DefKind::Impl { of_trait: true } if !tcx.impl_trait_header(d).safety.is_safe() => sites.push(unsafe_site(&cx, "impl", id, tcx.def_span(d))),
                DefKind::Trait if !tcx.trait_def(d).safety.is_safe() => sites.push(unsafe_site(&cx, "trait", id, tcx.def_span(d))),
                DefKind::Static { safety, .. } if !safety.is_safe() => sites.push(unsafe_site(&cx, "static", id, tcx.def_span(d))),
                _ => (),
            }
        }
        let _ = write!(out, ",\"unsafe_sites\":{}", list(sites));
        out.push_str(",\"fns\":[\n");
        let mut first = true;
        for def in tcx.mir_keys(()).iter().copied() {
            let d = def.to_def_id();
            let kind = tcx.def_kind(d);
            let mut s = String::new();
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                    let hd = { let mut h = String::new(); cx.header(def, &mut h); h };
                    s.push_str(&hd);
                    s.push(',');
                    let cor: Option<Body<'static>> = COROUTINES.with(|c| c.borrow().get(&def.local_def_index.as_u32()).cloned());
                    if let Some(b) = cor {
                        let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                        cx.body(d, &b, false, &mut s);
                    }
                    else {
                        let steal = tcx.mir_drops_elaborated_and_const_checked(def);
                        if steal.is_stolen() { let b = tcx.optimized_mir(d); cx.body(d, b, false, &mut s); }
                        else { let b = steal.borrow().clone(); cx.body(d, &b, false, &mut s); }
                    }
                    s.push('}');
                }
                DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } => {
                    let hd = { let mut h = String::new(); cx.header(def, &mut h); h };
                    s.push_str(&hd);
                    s.push(',');
                    let b = tcx.mir_for_ctfe(def).clone();
                    cx.body(d, &b, false, &mut s);
                    s.push('}');
                }
                _ => {
                    // constructors have trivial bodies
                }
            }
            if !s.is_empty() {
                if !first { out.push_str(",\n"); }
                first = false;
                out.push_str(&s);
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let proms = tcx.promoted_mir(d);
                for (i, b) in proms.iter().enumerate() {
                    let mut s = String::new();
                    let hd = { let mut h = String::new(); cx.header(def, &mut h); h };
                    s.push_str(&hd.replacen(&format!("\"id\":{}", js(&cx.id(d))), &format!("\"id\":{}", js(&format!("{}::promoted[{i}]", cx.id(d)))), 1));
                    s.push(',');
                    cx.body(d, b, true, &mut s);
                    s.push('}');
                    out.push_str(",\n");
                    out.push_str(&s);
                }
            }
        }
        out.push_str("\n],\"adts\":{");
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) { cx.adts.insert(id.to_def_id()); }
        }
        let mut done: HashSet<DefId> = HashSet::new();
        let mut first = true;
        loop {
            let todo: Vec<DefId> = cx.adts.iter().copied().filter(|d| !done.contains(d)).collect();
            if todo.is_empty() { break; }
            for d in todo {
                done.insert(d);
                let a = tcx.adt_def(d);
                let cname = tcx.crate_name(d.krate).to_string();
                let deep = d.is_local() || cname == "netsblox_ast" || cname == "core" || cname == "alloc" || cname == "compact_str";
                let mut vs = vec![];
                if a.is_enum() || deep {
                    for (vi, v) in a.variants().iter_enumerated() {
                        let discr = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            if d.is_local() || cname == "netsblox_ast" { cx.note_ty(t); }
                            fs.push(format!("[{},{},{}]", js(f.name.as_str()), js(&cx.tystr(t)), f.vis.is_public()));
                        }
                        vs.push(format!("[{},{},{}]", js(v.name.as_str()), js(&discr), list(fs)));
                    }
                }
                if !first { out.push_str(",\n"); }
                first = false;
                let (file, line, _) = cx.span(tcx.def_span(d));
                let _ = write!(out, "{}:{{\"id\":{},\"kind\":\"{}\",\"local\":{},\"file\":{},\"line\":{},\"vs\":{}}}", js(&cx.path(d)), js(&cx.id(d)), if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" }, d.is_local(), js(&if d.is_local() { file } else { String::new() }), if d.is_local() { line } else { 0 }, list(vs));
            }
        }
        out.push_str("},\"impls\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { .. } = tcx.def_kind(id) {
                let d = id.to_def_id();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| with_no_trimmed_paths!(t.instantiate_identity().skip_norm_wip().to_string()));
                let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|i| js(&cx.id(i.def_id))).collect();
                if !first { out.push_str(",\n"); }
                first = false;
                let (file, line, mac) = cx.span(tcx.def_span(d));
                let _ = write!(out, "{{\"crate_of_mac\":{},\"self\":{},\"trait\":{},\"file\":{},\"line\":{},\"mac\":{},\"derived\":{},\"items\":{}}}", {
                    let sp = tcx.def_span(d);
                    let m = if sp.from_expansion() { sp.ctxt().outer_expn_data().macro_def_id.map(|m| tcx.crate_name(m.krate).to_string()) } else { None };
                    m.map(|m| js(&m)).unwrap_or("null".into())
                }, js(&cx.tystr(st)), tr.map(|x| js(&x)).unwrap_or("null".into()), js(&file), line, js(&mac), tcx.is_automatically_derived(d), list(items));
            }
        }
        out.push_str("]}\n");
        std::fs::write(&self.out, out).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let dir = std::env::var("MIRFACTS_OUT").ok();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let is_lib_or_bin = args.iter().any(|a| a.ends_with(".rs"));
    rustc_driver::catch_with_exit_code(move || {
        match (dir, crate_name) {
            (Some(dir), Some(n)) if is_lib_or_bin && want.split(',').any(|w| w == n) => {
                let mut a = args.clone();
                a.push("-Zmir-opt-level=0".into());
                let mut cb = Cb { out: format!("{dir}/{n}.json") };
                rustc_driver::compiler_entrypoint(&a, &mut cb);
            }
            _ => {
                struct Plain;
                impl rustc_driver::Callbacks for Plain {}
                rustc_driver::compiler_entrypoint(&args, &mut Plain);
            }
        }
    })
}
