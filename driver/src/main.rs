//! Fact extractor: a rustc driver that type-checks a crate exactly as cargo
//! asked and then writes its resolved program (types, impls, MIR) as JSON lines.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_data_structures;
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

// ---------------------------------------------------------------- JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
struct Obj(String);
impl Obj {
    fn new() -> Self {
        Obj(String::from("{"))
    }
    fn raw(mut self, k: &str, v: impl AsRef<str>) -> Self {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push_str(&esc(k));
        self.0.push(':');
        self.0.push_str(v.as_ref());
        self
    }
    fn s(self, k: &str, v: impl AsRef<str>) -> Self {
        let e = esc(v.as_ref());
        self.raw(k, e)
    }
    fn so(self, k: &str, v: Option<String>) -> Self {
        match v {
            Some(v) => self.s(k, v),
            None => self,
        }
    }
    fn b(self, k: &str, v: bool) -> Self {
        if v {
            self.raw(k, "true")
        } else {
            self
        }
    }
    fn n(self, k: &str, v: impl std::fmt::Display) -> Self {
        self.raw(k, v.to_string())
    }
    fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

// ---------------------------------------------------------------- names
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

macro_rules! plain {
    ($e:expr) => {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            ty::print::with_resolve_crate_name!($e)
        ))
    };
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        // closures print with their canonical id
        plain!(format!("{}", t))
    }

    /// Canonical id of a definition.
    fn id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::AnonConst | DefKind::SyntheticCoroutineBody => {
                let key = tcx.def_key(d);
                let p = tcx.parent(d);
                return format!(
                    "{}::{{{}#{}}}",
                    self.id(p),
                    if tcx.def_kind(d) == DefKind::Closure { "closure" } else { "const" },
                    key.disambiguated_data.disambiguator
                );
            }
            DefKind::Impl { .. } => return self.impl_id(d),
            _ => {}
        }
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    return format!("{}::{}", self.impl_id(p), tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_else(|| "{rpitit}".into()));
                }
                DefKind::Trait => {
                    return format!("{}::{}", self.id(p), tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_else(|| "{rpitit}".into()));
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Const | DefKind::AssocConst | DefKind::Closure => {
                    // item nested in a body
                    if let Some(n) = tcx.opt_item_name(d) {
                        return format!("{}::{}", self.id(p), n);
                    }
                }
                _ => {}
            }
        }
        plain!(tcx.def_path_str(d))
    }

    fn impl_id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        match tcx.impl_opt_trait_ref(d) {
            Some(tr) => {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let trs = plain!(format!("{}", tr.print_only_trait_path()));
                format!("<{} as {}>", self.ty(self_ty), trs)
            }
            None => format!("<{}>", self.ty(self_ty)),
        }
    }

    fn adt_of(&self, t: Ty<'tcx>) -> Option<String> {
        match t.peel_refs().kind() {
            ty::Adt(a, _) => Some(self.id(a.did())),
            _ => None,
        }
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        format!("{}:{}", f, l.line)
    }

    fn variants(&self, a: ty::AdtDef<'tcx>) -> String {
        let tcx = self.tcx;
        arr(a.discriminants(tcx).map(|(vi, d)| {
            format!("[{},{}]", esc(&d.val.to_string()), esc(a.variant(vi).name.as_str()))
        }))
    }

    fn is_local_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        let n = n.as_str();
        n.starts_with("hugr") || d.is_local()
    }
}

// ---------------------------------------------------------------- bodies
struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    owner: DefId,
    env: TypingEnv<'tcx>,
    upvars: Vec<String>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&self, p: Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut proj = Vec::new();
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = if a.is_enum() {
                                pt.variant_index.map(|v| a.variant(v))
                            } else {
                                Some(a.non_enum_variant())
                            };
                            match v {
                                Some(v) => {
                                    (v.fields[f].name.to_string(), Some(self.cx.id(a.did())))
                                }
                                None => (f.index().to_string(), None),
                            }
                        }
                        ty::Closure(..) => (
                            self.upvars.get(f.index()).cloned().unwrap_or(f.index().to_string()),
                            Some("{closure}".to_string()),
                        ),
                        _ => (f.index().to_string(), None),
                    };
                    match owner {
                        Some(o) => format!("[\"f\",{},{}]", esc(&name), esc(&o)),
                        None => format!("[\"f\",{}]", esc(&name)),
                    }
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => {
                    let (nm, o) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            (a.variant(vi).name.to_string(), self.cx.id(a.did()))
                        }
                        _ => (n.map(|s| s.to_string()).unwrap_or_default(), String::new()),
                    };
                    format!("[\"v\",{},{}]", esc(&nm), esc(&o))
                }
                _ => "\"~\"".to_string(),
            };
            proj.push(s);
            pt = pt.projection_ty(tcx, el);
        }
        if proj.is_empty() {
            format!("[{}]", p.local.index())
        } else {
            format!("[{},{}]", p.local.index(), proj.join(","))
        }
    }

    fn callee(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = Obj::new().s("p", self.cx.id(d));
        if let Some(n) = tcx.opt_item_name(d) {
            o = o.s("n", n.as_str());
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o = o.s("tr", self.cx.id(tr));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    o = o.s("st", self.cx.ty(t)).so("sa", self.cx.adt_of(t));
                    if let ty::Closure(cd, _) = t.peel_refs().kind() {
                        o = o.s("scl", self.cx.id(*cd));
                    }
                    if let ty::FnDef(fd, _) = t.peel_refs().kind() {
                        o = o.s("sfn", self.cx.id(*fd));
                    }
                }
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, tcx.erase_and_anonymize_regions(args)) {
                let rd = inst.def_id();
                if rd != d {
                    o = o.s("r", self.cx.id(rd));
                } else if matches!(tcx.def_kind(rd), DefKind::AssocFn) && tcx.defaultness(rd).has_value() {
                    // default body used by a concrete type
                    if let ty::InstanceKind::Item(_) = inst.def {
                        o = o.b("dflt", true);
                    }
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o = o.b("virt", true);
                }
            }
        }
        if tcx.is_constructor(d) {
            // tuple struct / variant constructor used as a function
            let p = tcx.parent(d);
            if tcx.def_kind(p) == DefKind::Variant {
                o = o.s("ctor", self.cx.id(tcx.parent(p))).s("ctorv", tcx.item_name(p).as_str());
            } else {
                o = o.s("ctor", self.cx.id(p));
            }
        }
        let g: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(esc(&self.cx.ty(t))),
                ty::GenericArgKind::Const(c) => Some(esc(&plain!(format!("{}", c)))),
                _ => None,
            })
            .collect();
        if !g.is_empty() {
            o = o.raw("g", arr(g));
        }
        o = o.b("ws", self.cx.is_local_ws(d));
        o.end()
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        let mut o = Obj::new();
        match t.kind() {
            ty::FnDef(d, args) => {
                return Obj::new().raw("fn", self.callee(*d, args.skip_binder())).end();
            }
            ty::Closure(d, _) => {
                return Obj::new().s("clos", self.cx.id(*d)).end();
            }
            _ => {}
        }
        o = o.s("ty", self.cx.ty(t));
        let mut evaluable = true;
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o = o.n("prom", p.index());
                    evaluable = false;
                } else {
                    o = o.s("def", self.cx.id(u.def));
                    if let Some(tr) = tcx.trait_of_assoc(u.def) {
                        o = o.s("tr", self.cx.id(tr));
                        if u.args.len() > 0 {
                            if let Some(t) = u.args[0].as_type() {
                                o = o.s("st", self.cx.ty(t)).so("sa", self.cx.adt_of(t));
                            }
                        }
                    }
                }
            }
            mir::Const::Ty(_, ct) => {
                o = o.s("tyc", plain!(format!("{}", ct)));
            }
            _ => {}
        }
        if evaluable {
            let scalar_like = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_));
            let str_like = match t.kind() {
                ty::Ref(_, inner, _) => {
                    inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) || matches!(inner.kind(), ty::Array(e,_) if *e == tcx.types.u8)
                }
                _ => false,
            };
            if scalar_like || str_like {
                let has_params = {
                    use rustc_middle::ty::TypeVisitableExt;
                    c.const_.has_non_region_param()
                };
                if !has_params {
                    if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                        if scalar_like {
                            if let Some(s) = v.try_to_scalar_int() {
                                let txt = match t.kind() {
                                    ty::Bool => (if s.is_null() { "false" } else { "true" }).to_string(),
                                    ty::Int(_) => s.to_int(s.size()).to_string(),
                                    ty::Float(ty::FloatTy::F64) => {
                                        format!("{}f64", f64::from_bits(s.to_bits(s.size()) as u64))
                                    }
                                    ty::Char => char::from_u32(s.to_bits(s.size()) as u32)
                                        .map(|c| c.to_string())
                                        .unwrap_or_default(),
                                    _ => s.to_bits(s.size()).to_string(),
                                };
                                o = o.s("v", txt);
                            }
                        } else if let Some(b) = (if matches!(t.kind(), ty::Ref(_, i, _) if !matches!(i.kind(), ty::Array(..))) { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None }) {
                            o = o.s("str", String::from_utf8_lossy(b));
                        } else if let ty::Ref(_, inner, _) = t.kind() {
                            // reference to a byte array
                            if let ty::Array(_, n) = inner.kind() {
                                if let (Some(n), mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) =
                                    (n.try_to_target_usize(tcx), v)
                                {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) =
                                        tcx.try_get_global_alloc(prov.alloc_id())
                                    {
                                        let s = off.bytes_usize();
                                        let by = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            s..s + n as usize,
                                        );
                                        o = o.s("str", String::from_utf8_lossy(by));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // statics are reached through constant pointers
        if let mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let Some(mir::interpret::GlobalAlloc::Static(d)) =
                tcx.try_get_global_alloc(p.provenance.alloc_id())
            {
                o = o.s("static", self.cx.id(d));
            }
        }
        o.end()
    }

    fn operand(&self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            Operand::RuntimeChecks(r) => {
                format!("[\"k\",{}]", Obj::new().s("rt", format!("{:?}", r)).s("v", "false").end())
            }
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), esc(&plain!(format!("{}", n))))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(k, BorrowKind::Mut { .. }) { "\"mut\"" } else { "\"shr\"" },
                self.place(*p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "[\"ref\",{},{}]",
                if m.is_mut() { "\"mut\"" } else { "\"shr\"" },
                self.place(*p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.cx.id(*d))),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), esc(&self.cx.ty(*t)))
            }
            Rvalue::BinaryOp(b, x) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(&x.0),
                self.operand(&x.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                match t.kind() {
                    ty::Adt(a, _) if a.is_enum() => format!(
                        "[\"discr\",{},{},{}]",
                        self.place(*p),
                        esc(&self.cx.id(a.did())),
                        self.cx.variants(*a)
                    ),
                    _ => format!("[\"discr\",{},{},[]]", self.place(*p), esc(&self.cx.ty(t))),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let ops_s = arr(ops.iter().map(|o| self.operand(o)));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", ops_s),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", ops_s),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let names = if let Some(f) = active {
                            vec![esc(v.fields[*f].name.as_str())]
                        } else {
                            v.fields.iter().map(|f| esc(f.name.as_str())).collect()
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            ops_s,
                            esc(&self.cx.id(*d)),
                            if a.is_enum() { esc(v.name.as_str()) } else { "null".into() },
                            arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", ops_s, esc(&self.cx.id(*d)))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{}]", ops_s),
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn blocks(&self) -> String {
        let mut out = Vec::new();
        for (_bb, data) in self.body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                out.push("null".to_string());
                continue;
            }
            let mut st = Vec::new();
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(b.0),
                            self.rvalue(&b.1),
                            self.line(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],0]",
                            self.place(**place),
                            variant_index.index()
                        ));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let line = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(discr),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index()))),
                    targets.otherwise().index(),
                    line
                ),
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(*place), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                            _ => Obj::new().s("p", "<dyn>").end(),
                        },
                        o => Obj::new().s("p", "<ptr>").raw("op", self.operand(o)).end(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(args.iter().map(|a| self.operand(&a.node))),
                        self.place(*destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(cond),
                    expected,
                    target.index(),
                    esc(assert_kind(msg))
                ),
                _ => "[\"unreachable\"]".to_string(),
            };
            out.push(format!("[{},{}]", arr(st), t));
        }
        arr(out)
    }

    fn line(&self, sp: Span) -> String {
        let sm = self.cx.tcx.sess.source_map();
        let sp = sp.source_callsite();
        sm.lookup_char_pos(sp.lo()).line.to_string()
    }

    fn dump(&self) -> String {
        let mut names: Vec<Option<String>> = vec![None; self.body.local_decls.len()];
        let mut dbg: Vec<String> = vec![];
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.index()].get_or_insert(v.name.to_string());
                } else {
                    dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
                }
            }
        }
        let locals = arr(self.body.local_decls.iter_enumerated().map(|(i, d)| {
            let n = match &names[i.index()] {
                Some(n) => format!(",{}", esc(n)),
                None => String::new(),
            };
            format!("[{}{}]", esc(&self.cx.ty(d.ty)), n)
        }));
        let _ = self.owner;
        Obj::new()
            .n("nargs", self.body.arg_count)
            .raw("locals", locals)
            .raw("dbg", arr(dbg))
            .raw("blocks", self.blocks())
            .end()
    }
}

fn assert_kind<O>(m: &AssertKind<O>) -> &'static str {
    match m {
        AssertKind::BoundsCheck { .. } => "bounds",
        AssertKind::Overflow(..) => "overflow",
        AssertKind::OverflowNeg(..) => "overflow",
        AssertKind::DivisionByZero(..) => "divzero",
        AssertKind::RemainderByZero(..) => "remzero",
        _ => "other",
    }
}

// ---------------------------------------------------------------- crate
fn dump_crate(tcx: TyCtxt<'_>, out_dir: &str) {
    let cx = Cx { tcx };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
    let path = format!("{}/{}{}.jsonl", out_dir, krate, if bin { ".bin" } else { "" });
    let tmp = format!("{}.tmp{}", path, std::process::id());
    let f = std::fs::File::create(&tmp).expect("facts file");
    let mut w = std::io::BufWriter::new(f);

    // sources
    let sm = tcx.sess.source_map();
    let mut files = vec![];
    for sf in sm.files().iter() {
        if let rustc_span::FileName::Real(r) = &sf.name {
            if let Some(p) = r.local_path() {
                if sf.cnum == rustc_hir::def_id::LOCAL_CRATE {
                    files.push(p.display().to_string());
                }
            }
        }
    }
    let _ = writeln!(
        w,
        "{}",
        Obj::new()
            .s("k", "crate")
            .s("name", &krate)
            .s("driver", env!("CARGO_PKG_VERSION"))
            .s("cwd", std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default())
            .raw("files", arr(files.iter().map(|s| esc(s))))
            .end()
    );

    let field = |fd: &ty::FieldDef| {
        Obj::new()
            .s("n", fd.name.as_str())
            .s("ty", cx.ty(tcx.type_of(fd.did).instantiate_identity().skip_norm_wip()))
            .b("pub", fd.vis.is_public())
            .end()
    };

    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let vs = if a.is_enum() {
                    a.discriminants(tcx).map(|(vi, dv)| (vi, dv.val.to_string())).collect::<Vec<_>>()
                } else {
                    a.variants().indices().map(|v| (v, "0".to_string())).collect()
                };
                let _ = writeln!(
                    w,
                    "{}",
                    Obj::new()
                        .s("k", "adt")
                        .s("id", cx.id(d))
                        .s("kind", if a.is_enum() { "enum" } else { "struct" })
                        .b("pub", tcx.visibility(d).is_public())
                        .s("span", cx.span(tcx.def_span(d)))
                        .raw(
                            "variants",
                            arr(vs.iter().map(|(vi, dv)| {
                                let v = a.variant(*vi);
                                Obj::new()
                                    .s("n", v.name.as_str())
                                    .s("d", dv)
                                    .s("ctor", match v.ctor_kind() { Some(CtorKind::Fn) => "fn", Some(CtorKind::Const) => "const", None => "" })
                                    .raw("fields", arr(v.fields.iter().map(|f| field(f))))
                                    .end()
                            }))
                        )
                        .end()
                );
            }
            DefKind::Trait => {
                let items = arr(tcx.associated_items(d).in_definition_order().map(|i| {
                    Obj::new()
                        .s("n", i.opt_name().map(|n| n.to_string()).unwrap_or_default())
                        .s("kind", i.tag().as_str_x())
                        .b("dflt", i.defaultness(tcx).has_value())
                        .end()
                }));
                let _ = writeln!(
                    w,
                    "{}",
                    Obj::new().s("k", "trait").s("id", cx.id(d)).s("span", cx.span(tcx.def_span(d))).raw("items", items).end()
                );
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| cx.id(t.skip_binder().def_id));
                let items = arr(tcx.associated_items(d).in_definition_order().map(|i| {
                    Obj::new()
                        .s("n", i.opt_name().map(|n| n.to_string()).unwrap_or_default())
                        .s("id", cx.id(i.def_id))
                        .s("kind", i.tag().as_str_x())
                        .end()
                }));
                let _ = writeln!(
                    w,
                    "{}",
                    Obj::new()
                        .s("k", "impl")
                        .s("id", cx.id(d))
                        .so("tr", tr)
                        .s("st", cx.ty(st))
                        .so("sa", cx.adt_of(st))
                        .b("derived", tcx.is_automatically_derived(d))
                        .s("span", cx.span(tcx.def_span(d)))
                        .raw("items", items)
                        .end()
                );
            }
            _ => {}
        }
    }

    for ld in tcx.mir_keys(()).iter() {
        dump_body(&cx, *ld, &mut w);
    }
    w.flush().expect("flush facts");
    drop(w);
    std::fs::rename(&tmp, &path).expect("rename facts");
}

trait TagStr {
    fn as_str_x(&self) -> &'static str;
}
impl TagStr for ty::AssocTag {
    fn as_str_x(&self) -> &'static str {
        match self {
            ty::AssocTag::Const => "const",
            ty::AssocTag::Fn => "fn",
            ty::AssocTag::Type => "type",
        }
    }
}

fn dump_body(cx: &Cx<'_>, ld: LocalDefId, w: &mut impl std::io::Write) {
    let tcx = cx.tcx;
    let d = ld.to_def_id();
    let dk = tcx.def_kind(d);
    let kind = match dk {
        DefKind::Fn => "fn",
        DefKind::AssocFn => "assoc",
        DefKind::Closure => "closure",
        DefKind::Const | DefKind::AssocConst => "const",
        DefKind::Static { .. } => "static",
        DefKind::AnonConst => return,
        _ => return, // constructors
    };
    if tcx.is_constructor(d) {
        return;
    }
    let is_fn = matches!(kind, "fn" | "assoc" | "closure");
    let body: &Body<'_> = if is_fn {
        tcx.optimized_mir(d)
    } else {
        // generic assoc consts still have a body
        tcx.mir_for_ctfe(d)
    };
    let env = TypingEnv::post_analysis(tcx, d);
    let upvars: Vec<String> = if kind == "closure" {
        tcx.closure_captures(ld).iter().map(|c| c.to_symbol().to_string()).collect()
    } else {
        vec![]
    };
    let bc = BodyCx { cx, body, owner: d, env, upvars: upvars.clone() };
    let root = tcx.typeck_root_def_id(d);
    let mut o = Obj::new().s("k", "fn").s("id", cx.id(d)).s("kind", kind);
    if let Some(n) = tcx.opt_item_name(d) {
        o = o.s("n", n.as_str());
    }
    if kind == "closure" {
        o = o.s("root", cx.id(root)).s("parent", cx.id(tcx.parent(d)));
        o = o.raw("upv", arr(upvars.iter().map(|s| esc(s))));
    } else {
        o = o.b("pub", tcx.visibility(d).is_public());
        o = o.b("eff_pub", tcx.effective_visibilities(()).is_reachable(ld));
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o = o.s("st", cx.ty(st)).so("sa", cx.adt_of(st)).s("impl", cx.id(p));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        o = o.s("tr", cx.id(tr.skip_binder().def_id));
                    }
                    o = o.b("derived", tcx.is_automatically_derived(p));
                }
                DefKind::Trait => {
                    o = o.s("in_trait", cx.id(p));
                }
                _ => {}
            }
        }
    }
    o = o.s("span", cx.span(tcx.def_span(d)));
    o = o.s("ret", cx.ty(body.local_decls[RETURN_PLACE].ty));
    o = o.raw("mir", bc.dump());
    let prom = tcx.promoted_mir(d);
    let ps = arr(prom.iter().map(|b| {
        let pc = BodyCx { cx, body: b, owner: d, env, upvars: vec![] };
        pc.dump()
    }));
    if !prom.is_empty() {
        o = o.raw("prom", ps);
    }
    let _ = writeln!(w, "{}", o.end());
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_none() {
            dump_crate(tcx, &self.out);
        }
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("HUGR_FACTS_DIR").unwrap_or_default();
    let is_lib = args.windows(2).any(|a| a[0] == "--crate-name" && a[1].starts_with("hugr") && !a[1].contains("build_script"));
    let is_test = args.iter().any(|a| a == "--test");
    let code = rustc_driver::catch_with_exit_code(|| {
        if !out.is_empty() && is_lib && !is_test {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
