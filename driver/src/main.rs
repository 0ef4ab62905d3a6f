//! A rustc wrapper that dumps the type-checked, resolved MIR (as built from
//! THIR, before borrowck / coroutine lowering) of every body of a workspace
//! crate as JSON facts.  It changes nothing in the compilation itself.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_data_structures;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::{Mutex, OnceLock};

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, Body, Operand, Place, PlaceElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};

type BuiltFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<BuiltFn> = OnceLock::new();

struct SendBodies(Vec<(u32, Body<'static>)>);
unsafe impl Send for SendBodies {}
static BODIES: Mutex<SendBodies> = Mutex::new(SendBodies(Vec::new()));

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // The bodies are only used in `after_analysis`, while 'tcx is alive.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.lock().unwrap().0.push((def.local_def_index.as_u32(), b));
    r
}

struct Cb {
    out_dir: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if self.out_dir.is_some() {
            config.override_queries = Some(|_s, p| {
                let _ = ORIG.set(p.queries.mir_built);
                p.queries.mir_built = my_mir_built;
            });
        }
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(dir) = &self.out_dir {
            if tcx.dcx().has_errors().is_none() {
                dump(tcx, dir);
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<HashMap<Ty<'tcx>, usize>>,
    ty_out: RefCell<Vec<String>>,
    defs: RefCell<HashMap<DefId, usize>>,
    def_out: RefCell<Vec<String>>,
}

fn alias_def(k: ty::AliasTyKind<'_>) -> Option<DefId> {
    match k {
        ty::AliasTyKind::Projection { def_id, .. } => Some(def_id.into()),
        ty::AliasTyKind::Opaque { def_id, .. } => Some(def_id.into()),
        _ => None,
    }
}

fn path_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}

impl<'tcx> Cx<'tcx> {
    fn def(&self, d: DefId) -> usize {
        if let Some(i) = self.defs.borrow().get(&d) {
            return *i;
        }
        let h = self.tcx.def_path_hash(d).0;
        let p = path_str(self.tcx, d);
        let krate = self.tcx.crate_name(d.krate);
        let mut v = self.def_out.borrow_mut();
        let i = v.len();
        v.push(format!("[\"{}\",{},{}]", h.to_hex(), js(&p), js(krate.as_str())));
        self.defs.borrow_mut().insert(d, i);
        i
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.borrow().get(&t) {
            return *i;
        }
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string())));
        let (k, d, args): (&str, Option<DefId>, Vec<Ty<'tcx>>) = match *t.kind() {
            ty::Bool => ("bool", None, vec![]),
            ty::Char => ("char", None, vec![]),
            ty::Int(_) | ty::Uint(_) => ("int", None, vec![]),
            ty::Float(_) => ("float", None, vec![]),
            ty::Adt(a, args) => ("adt", Some(a.did()), args.types().collect()),
            ty::Foreign(d) => ("foreign", Some(d), vec![]),
            ty::Str => ("str", None, vec![]),
            ty::Array(e, _) => ("array", None, vec![e]),
            ty::Slice(e) => ("slice", None, vec![e]),
            ty::RawPtr(e, _) => ("ptr", None, vec![e]),
            ty::Ref(_, e, m) => (if m.is_mut() { "refmut" } else { "ref" }, None, vec![e]),
            ty::FnDef(d, args) => ("fndef", Some(d), args.skip_binder().types().collect()),
            ty::FnPtr(..) => ("fnptr", None, vec![]),
            ty::Dynamic(preds, ..) => ("dyn", preds.principal_def_id(), vec![]),
            ty::Closure(d, args) => ("closure", Some(d), args.as_closure().upvar_tys().iter().collect()),
            ty::CoroutineClosure(d, _) => ("coroclosure", Some(d), vec![]),
            ty::Coroutine(d, args) => ("coroutine", Some(d), args.as_coroutine().upvar_tys().iter().collect()),
            ty::Never => ("never", None, vec![]),
            ty::Tuple(l) => ("tuple", None, l.iter().collect()),
            ty::Alias(_, a) => ("alias", alias_def(a.kind), a.args.types().collect()),
            ty::Param(_) => ("param", None, vec![]),
            _ => ("other", None, vec![]),
        };
        let d = d.map(|d| self.def(d) as i64).unwrap_or(-1);
        let args: Vec<String> = args.into_iter().map(|a| self.ty(a).to_string()).collect();
        let mut v = self.ty_out.borrow_mut();
        let i = v.len();
        v.push(format!("[{},{},{},[{}]]", js(&s), js(k), d, args.join(",")));
        self.tys.borrow_mut().insert(t, i);
        i
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.cx.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => o.push_str(",\"*\""),
                PlaceElem::Field(f, fty) => {
                    let name = match *pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() && pty.variant_index.is_none() {
                                format!("{}", f.as_u32())
                            } else {
                                a.variant(vi).fields[f].name.to_string()
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            if let Some(l) = d.as_local() {
                                let caps = tcx.closure_captures(l);
                                caps.get(f.as_usize())
                                    .map(|c| format!("^{}", c.to_symbol()))
                                    .unwrap_or_else(|| f.as_u32().to_string())
                            } else {
                                f.as_u32().to_string()
                            }
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", js(&name), self.cx.ty(self.norm(fty)));
                }
                PlaceElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_u32());
                }
                PlaceElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                PlaceElem::Subslice { .. } => o.push_str(",[\"ss\"]"),
                PlaceElem::Downcast(name, vi) => {
                    let n = match *pty.ty.kind() {
                        ty::Adt(a, _) if a.is_enum() => a.variant(vi).name.to_string(),
                        _ => name.map(|n| n.to_string()).unwrap_or_else(|| vi.as_u32().to_string()),
                    };
                    let _ = write!(o, ",[\"d\",{}]", js(&n));
                }
                PlaceElem::OpaqueCast(_) | PlaceElem::UnwrapUnsafeBinder(_) | PlaceElem::PhantomDeref => o.push_str(",[\"o\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        let tys: Vec<String> = args.types().map(|t| self.cx.ty(t).to_string()).collect();
        let mut res: i64 = -1;
        let mut virt = false;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
                match inst.def {
                    ty::InstanceKind::Item(r) => res = self.cx.def(r) as i64,
                    ty::InstanceKind::Virtual(..) => virt = true,
                    other => {
                        res = self.cx.def(other.def_id()) as i64;
                    }
                }
            }
        }
        let tr = if let Some(assoc) = tcx.opt_associated_item(d) {
            match assoc.container {
                ty::AssocContainer::Trait => 1,
                _ => 0,
            }
        } else {
            0
        };
        format!("{{\"fn\":{},\"r\":{},\"v\":{},\"tr\":{},\"a\":[{}]}}", self.cx.def(d), res, virt as u8, tr, tys.join(","))
    }
    fn constant(&self, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = self.norm(c.const_.ty());
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fndef(d, args.skip_binder());
        }
        let tyid = self.cx.ty(t);
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                let val = self.scalar_of(&c.const_, t);
                return format!("{{\"cd\":{},\"t\":{}{}}}", self.cx.def(u.def), tyid, val);
            }
            mir::Const::Ty(_, ct) => {
                let s = with_no_trimmed_paths!(ct.to_string());
                let val = self.scalar_of(&c.const_, t);
                return format!("{{\"ct\":{},\"t\":{}{}}}", js(&s), tyid, val);
            }
            mir::Const::Val(..) => {
                let val = self.scalar_of(&c.const_, t);
                let _ = tcx;
                return format!("{{\"t\":{}{}}}", tyid, val);
            }
        }
    }
    fn scalar_of(&self, c: &mir::Const<'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.cx.tcx;
        if let mir::Const::Unevaluated(u, _) = c {
            use rustc_middle::ty::TypeVisitableExt;
            if u.args.has_param() {
                return String::new();
            }
        }
        let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) else {
            return String::new();
        };
        match v {
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let s = match *t.kind() {
                    ty::Bool => format!("{}", i.to_bits_unchecked() != 0),
                    ty::Int(_) => format!("{}", i.to_int(i.size())),
                    ty::Char => js(&format!("{}", char::from_u32(i.to_bits_unchecked() as u32).unwrap_or('?'))),
                    _ => js(&format!("{}", i.to_bits_unchecked())),
                };
                let s = if s.starts_with('"') { s } else { format!("\"{}\"", s) };
                format!(",\"v\":{}", s)
            }
            mir::ConstValue::Slice { .. } | mir::ConstValue::Indirect { .. } | mir::ConstValue::Scalar(_) => {
                // &str
                if let ty::Ref(_, inner, _) = *t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!(",\"s\":{}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                // the address of a static item
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(ptr.provenance.alloc_id()) {
                        return format!(",\"st\":{}", js(&with_no_trimmed_paths!(tcx.def_path_str(d))));
                    }
                }
                String::new()
            }
            _ => String::new(),
        }
    }
    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => "{\"t\":0}".to_string(),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.op(o)),
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    mir::BorrowKind::Shared => "ref",
                    mir::BorrowKind::Fake(_) => "fakeref",
                    mir::BorrowKind::Mut { .. } => "refmut",
                    #[allow(unreachable_patterns)]
                    _ => "ref",
                };
                format!("[\"{}\",{}]", k, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.cx.def(*d)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                format!("[\"cast\",{},{},{}]", js(&ks), self.op(o), self.cx.ty(self.norm(*t)))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let tcx = self.cx.tcx;
                let (kind, d, variant, names): (&str, i64, String, Vec<String>) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", -1, String::new(), vec![]),
                    mir::AggregateKind::Tuple => ("tuple", -1, String::new(), vec![]),
                    mir::AggregateKind::Adt(d, vi, _, _, af) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let names = if let Some(f) = af {
                            vec![v.fields[*f].name.to_string()]
                        } else {
                            v.fields.iter().map(|f| f.name.to_string()).collect()
                        };
                        ("adt", self.cx.def(*d) as i64, v.name.to_string(), names)
                    }
                    mir::AggregateKind::Closure(d, _) => ("closure", self.cx.def(*d) as i64, String::new(), self.caps(*d)),
                    mir::AggregateKind::Coroutine(d, _) => ("coroutine", self.cx.def(*d) as i64, String::new(), self.caps(*d)),
                    mir::AggregateKind::CoroutineClosure(d, _) => ("coroclosure", self.cx.def(*d) as i64, String::new(), self.caps(*d)),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", -1, String::new(), vec![]),
                };
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ns: Vec<String> = names.iter().map(|n| js(n)).collect();
                format!("[\"agg\",\"{}\",{},{},[{}],[{}]]", kind, d, js(&variant), ns.join(","), os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
        }
    }
    fn caps(&self, d: DefId) -> Vec<String> {
        match d.as_local() {
            Some(l) => self.cx.tcx.closure_captures(l).iter().map(|c| format!("^{}", c.to_symbol())).collect(),
            None => vec![],
        }
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sm = self.cx.tcx.sess.source_map();
        let sp = sp.source_callsite();
        sm.lookup_char_pos(sp.lo()).line
    }
    fn dump_body(&self, out: &mut String) {
        let body = self.body;
        let _ = write!(out, "\"ac\":{},\"locals\":[", body.arg_count);
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut extra: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else {
                    extra.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
                }
            }
        }
        for (i, (l, d)) in body.local_decls.iter_enumerated().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let t = self.norm(d.ty);
            match names.get(&l.as_u32()) {
                Some(n) => {
                    let _ = write!(out, "[{},{}]", self.cx.ty(t), js(n));
                }
                None => {
                    let _ = write!(out, "[{}]", self.cx.ty(t));
                }
            }
        }
        let _ = write!(out, "],\"dbg\":[{}],\"bbs\":[", extra.join(","));
        for (bi, (_bb, data)) in body.basic_blocks.iter_enumerated().enumerate() {
            if bi > 0 {
                out.push(',');
            }
            let _ = write!(out, "{{\"c\":{},\"s\":[", data.is_cleanup as u8);
            let mut first = true;
            if !data.is_cleanup {
                for st in &data.statements {
                    let s = match &st.kind {
                        StatementKind::Assign(b) => {
                            format!("[\"=\",{},{},{}]", self.place(&b.0), self.rvalue(&b.1), self.line(st.source_info.span))
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32())
                        }
                        StatementKind::StorageLive(l) => format!("[\"L\",{}]", l.as_u32()),
                        StatementKind::StorageDead(l) => format!("[\"D\",{}]", l.as_u32()),
                        _ => continue,
                    };
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    out.push_str(&s);
                }
            }
            out.push_str("],\"t\":");
            if data.is_cleanup {
                out.push_str("[\"cleanup\"]");
            } else {
                let term = data.terminator();
                let line = self.line(term.source_info.span);
                let t = match &term.kind {
                    TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        // For a discriminant switch, name the variants.
                        let vals: Vec<String> =
                            targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                        let dty = self.norm(discr.ty(self.body, self.cx.tcx));
                        format!(
                            "[\"switch\",{},[{}],{},{},{}]",
                            self.op(discr),
                            vals.join(","),
                            targets.otherwise().as_u32(),
                            self.cx.ty(dty),
                            line
                        )
                    }
                    TerminatorKind::Return => "[\"ret\"]".to_string(),
                    TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                    TerminatorKind::Drop { place, target, .. } => {
                        format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), line)
                    }
                    TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                        let os: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                        let ats: Vec<String> = args
                            .iter()
                            .map(|a| self.cx.ty(self.norm(a.node.ty(self.body, self.cx.tcx))).to_string())
                            .collect();
                        format!(
                            "[\"call\",{},[{}],{},{},{},{},[{}]]",
                            self.op(func),
                            os.join(","),
                            self.place(destination),
                            target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                            self.line(*fn_span),
                            term.source_info.span.from_expansion() as u8,
                            ats.join(",")
                        )
                    }
                    TerminatorKind::TailCall { func, args, .. } => {
                        let os: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                        format!("[\"call\",{},[{}],[0],-1,{},0,[]]", self.op(func), os.join(","), line)
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match &**msg {
                            mir::AssertKind::BoundsCheck { .. } => "bounds",
                            mir::AssertKind::Overflow(..) => "overflow",
                            mir::AssertKind::OverflowNeg(_) => "overflowneg",
                            mir::AssertKind::DivisionByZero(_) => "divzero",
                            mir::AssertKind::RemainderByZero(_) => "remzero",
                            _ => "other",
                        };
                        format!("[\"assert\",{},{},\"{}\",{},{}]", self.op(cond), expected, m, target.as_u32(), line)
                    }
                    TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                        format!("[\"yield\",{},{},{},{}]", self.op(value), resume.as_u32(), self.place(resume_arg), line)
                    }
                    TerminatorKind::CoroutineDrop => "[\"unreach\"]".to_string(),
                    TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                    TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unreach\"]".to_string(),
                    TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".to_string(),
                };
                out.push_str(&t);
            }
            out.push('}');
        }
        out.push(']');
    }
}

fn attrs_json(tcx: TyCtxt<'_>, d: LocalDefId) -> String {
    let hid = tcx.local_def_id_to_hir_id(d);
    let mut v = vec![];
    for a in tcx.hir_attrs(hid) {
        if let rustc_attr_ir::Attribute::DeriveHelper(_) | rustc_attr_ir::Attribute::Tool(_) = a {
            v.push(js(rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a).trim()));
        }
    }
    format!("[{}]", v.join(","))
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let bodies = std::mem::take(&mut BODIES.lock().unwrap().0);
    let bodies: Vec<(u32, Body<'tcx>)> = unsafe { std::mem::transmute(bodies) };
    let cx = Cx {
        tcx,
        tys: Default::default(),
        ty_out: Default::default(),
        defs: Default::default(),
        def_out: Default::default(),
    };
    let sm = tcx.sess.source_map();
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
    let mut fns = String::new();
    let mut n = 0usize;
    for (idx, body) in &bodies {
        let ldef = LocalDefId { local_def_index: rustc_hir::def_id::DefIndex::from_u32(*idx) };
        let did = ldef.to_def_id();
        let root = tcx.typeck_root_def_id(did);
        let env = TypingEnv::post_analysis(tcx, root);
        let bc = BodyCx { cx: &cx, body, env };
        let sp = tcx.def_span(did);
        let full = body.span.source_callsite();
        let lo = sm.lookup_char_pos(full.lo());
        let hi = sm.lookup_char_pos(full.hi());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        if n > 0 {
            fns.push_str(",\n");
        }
        n += 1;
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Ctor(..) => "ctor",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "anon",
        };
        let parent = tcx.opt_parent(did).map(|p| cx.def(p) as i64).unwrap_or(-1);
        // impl context
        let mut ti: i64 = -1;
        let mut tr: i64 = -1;
        let mut st: i64 = -1;
        let mut imp_parent = did;
        while matches!(tcx.def_kind(imp_parent), DefKind::Closure | DefKind::AnonConst) {
            imp_parent = tcx.parent(imp_parent);
        }
        if let Some(a) = tcx.opt_associated_item(imp_parent) {
            if let Some(t) = a.trait_item_def_id() {
                ti = cx.def(t) as i64;
            }
        }
        if let Some(imp) = tcx.opt_parent(imp_parent) {
            if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                let sty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                st = cx.ty(tcx.erase_and_anonymize_regions(sty)) as i64;
                if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                    tr = cx.def(t.instantiate_identity().skip_norm_wip().def_id) as i64;
                }
            }
        }
        let vis = if matches!(kind, "fn" | "assoc") && tcx.visibility(did).is_public() { 1 } else { 0 };
        let asy = if matches!(kind, "fn" | "assoc") && tcx.asyncness(did).is_async() { 1 } else { 0 };
        let caps: Vec<String> = if matches!(kind, "closure" | "coroutine") {
            bc.caps(did).iter().map(|c| js(c)).collect()
        } else {
            vec![]
        };
        let at = if matches!(kind, "fn" | "assoc") { attrs_json(tcx, ldef) } else { "[]".into() };
        let _ = write!(
            fns,
            "{{\"d\":{},\"k\":\"{}\",\"par\":{},\"root\":{},\"ti\":{},\"trait\":{},\"st\":{},\"vis\":{},\"async\":{},\"exp\":{},\"file\":{},\"lo\":{},\"hi\":{},\"caps\":[{}],\"attrs\":{},",
            cx.def(did), kind, parent, cx.def(root), ti, tr, st, vis, asy,
            sp.from_expansion() as u8, js(&file), lo.line, hi.line, caps.join(","), at
        );
        bc.dump_body(&mut fns);
        fns.push('}');
    }
    // ADTs, traits, impls
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in a.variants().iter_enumerated() {
                    let discr = if a.is_enum() {
                        format!("{}", a.discriminant_for_variant(tcx, vi).val)
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let fty = tcx.erase_and_anonymize_regions(fty);
                            let at = f.did.as_local().map(|l| attrs_json(tcx, l)).unwrap_or("[]".into());
                            format!("[{},{},{}]", js(f.name.as_str()), cx.ty(fty), at)
                        })
                        .collect();
                    let at = if a.is_enum() {
                        v.def_id.as_local().map(|l| attrs_json(tcx, l)).unwrap_or("[]".into())
                    } else {
                        "[]".into()
                    };
                    vs.push(format!("[{},\"{}\",[{}],{}]", js(v.name.as_str()), discr, fs.join(","), at));
                }
                let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
                adts.push(format!(
                    "{{\"d\":{},\"k\":\"{}\",\"vs\":[{}],\"attrs\":{},\"file\":{},\"lo\":{}}}",
                    cx.def(did),
                    if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" },
                    vs.join(","),
                    attrs_json(tcx, id),
                    js(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                    lo.line
                ));
            }
            DefKind::Impl { .. } => {
                let sty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = cx.ty(tcx.erase_and_anonymize_regions(sty));
                let tr = tcx
                    .impl_opt_trait_ref(did)
                    .map(|t| cx.def(t.instantiate_identity().skip_norm_wip().def_id) as i64)
                    .unwrap_or(-1);
                let ta: Vec<String> = tcx
                    .impl_opt_trait_ref(did)
                    .map(|t| {
                        t.instantiate_identity()
                            .skip_norm_wip()
                            .args
                            .types()
                            .map(|t| cx.ty(tcx.erase_and_anonymize_regions(t)).to_string())
                            .collect()
                    })
                    .unwrap_or_default();
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|a| {
                        format!("[{},{}]", cx.def(a.def_id), a.trait_item_def_id().map(|t| cx.def(t) as i64).unwrap_or(-1))
                    })
                    .collect();
                impls.push(format!(
                    "{{\"d\":{},\"st\":{},\"tr\":{},\"ta\":[{}],\"items\":[{}]}}",
                    cx.def(did), st, tr, ta.join(","), items.join(",")
                ));
            }
            DefKind::Trait => {
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|a| format!("[{},{}]", cx.def(a.def_id), a.defaultness(tcx).has_value() as u8))
                    .collect();
                traits.push(format!("{{\"d\":{},\"items\":[{}]}}", cx.def(did), items.join(",")));
            }
            _ => {}
        }
    }
    // files
    let mut files = vec![];
    for f in sm.files().iter() {
        if f.cnum == rustc_hir::def_id::LOCAL_CRATE {
            let name = format!("{}", f.name.prefer_local_unconditionally());
            let lines = f.count_lines();
            files.push(format!("[{},{},{}]", js(&name), lines, f.normalized_source_len.0));
        }
    }
    let kind = format!("{:?}", tcx.crate_types());
    let out = format!(
        "{{\"crate\":{},\"kind\":{},\"cwd\":{},\"files\":[{}],\n\"tys\":[{}],\n\"defs\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"fns\":[{}]}}\n",
        js(krate.as_str()),
        js(&kind),
        js(&std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default()),
        files.join(","),
        cx.ty_out.borrow().join(",\n"),
        cx.def_out.borrow().join(",\n"),
        adts.join(",\n"),
        impls.join(",\n"),
        traits.join(",\n"),
        fns
    );
    let bin = if kind.contains("Executable") { "bin" } else { "lib" };
    let path = format!("{}/{}.{}.json", dir, krate, bin);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, out).expect("write facts");
    std::fs::rename(&tmp, &path).expect("rename facts");
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_probe = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    let out_dir = std::env::var("VERIF_FACTS").ok();
    let skip = name == "build_script_build" || name == "___" || name.is_empty() || is_probe;
    let mut cb = Cb { out_dir: if skip { None } else { out_dir } };
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    })
}
