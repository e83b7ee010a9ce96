//! MIR exporter: dumps the type-checked, drop-elaborated MIR of a crate (and of the generic
//! library functions it instantiates) as JSON.  It decides nothing; see ../analyzer.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => js(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    js(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    js(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn i<T: Into<i128>>(x: T) -> J {
    J::I(x.into())
}
fn u(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    bodies: BTreeMap<String, J>,
    inline: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let p = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", p.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, p.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        u(self.ty_id(t))
    }
    fn adt(&mut self, adt: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(adt.did()) {
            return;
        }
        let tcx = self.tcx;
        let p = self.path(adt.did());
        let mut vs = vec![];
        for (idx, v) in adt.variants().iter_enumerated() {
            let d = if adt.is_enum() { adt.discriminant_for_variant(tcx, idx).val as i128 } else { 0 };
            vs.push(J::O(vec![
                ("name", s(v.name)),
                ("discr", J::I(d)),
                ("fields", J::A(v.fields.iter().map(|f| s(f.name)).collect())),
            ]));
        }
        let k = if adt.is_enum() {
            "enum"
        } else if adt.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adts.insert(
            p,
            J::O(vec![("kind", s(k)), ("local", J::B(adt.did().is_local())), ("variants", J::A(vs))]),
        );
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&x) = self.type_ids.get(&t) {
            return x;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.type_ids.insert(t, id);
        let st = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(&st))];
        match t.kind() {
            ty::Adt(a, args) => {
                self.adt(*a);
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(a.did()))));
                let v = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let v = self.ty(*x);
                o.push(("args", J::A(vec![v])));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let v = self.ty(*x);
                o.push(("args", J::A(vec![v])));
            }
            ty::Tuple(xs) => {
                o.push(("k", s("tuple")));
                let v = xs.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", s("slice")));
                let v = self.ty(*x);
                o.push(("args", J::A(vec![v])));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let v = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let args: GenericArgsRef<'tcx> = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                let v = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: Instance<'tcx>, x: T) -> T {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, x))
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let tcx = self.tcx;
        let base = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args));
        if tcx.is_closure_like(d) {
            // make the captured types' generic context explicit
            let root = tcx.typeck_root_def_id(d);
            let n = tcx.generics_of(root).count();
            let a: Vec<String> =
                inst.args.iter().take(n).map(|x| with_no_trimmed_paths!(x.to_string())).collect();
            return format!("{}@<{}>", self.path(d), a.join(","));
        }
        match inst.def {
            InstanceKind::Item(_) => base,
            k => format!("{}#{}", base, shim_name(&k)),
        }
    }
    fn inlinable(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        self.inline.iter().any(|m| p.starts_with(m.as_str()))
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        if !self.inlinable(d) || !self.tcx.is_mir_available(d) {
            return None;
        }
        if self.tcx.is_constructor(d) {
            return None;
        }
        let k = self.key(inst);
        if self.seen.len() > 60000 {
            return None;
        }
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), inst, self.env));
        }
        Some(k)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d)))];
        o.push(("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args)))));
        let v = args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(v)));
        let sig = tcx.fn_sig(d).skip_binder();
        if sig.safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if tcx.intrinsic(d).is_some() {
            o.push(("intrinsic", J::B(true)));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("method", s(tcx.item_name(d))));
        }
        if tcx.is_constructor(d) {
            let parent = tcx.parent(d);
            let (adt_did, vidx) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    self.adt(adt);
                    (tcx.parent(parent), adt.variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            o.push(("ctor", J::A(vec![s(self.path(adt_did)), u(vidx)])));
        }
        let r = Instance::try_resolve(tcx, self.env, d, args);
        if let Ok(Some(inst)) = r {
            let rd = inst.def_id();
            o.push(("rpath", s(self.path(rd))));
            if rd != d {
                o.push(("rfull", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(rd, inst.args)))));
                let v = inst.args.types().map(|x| self.ty(x)).collect();
                o.push(("rtargs", J::A(v)));
            }
            if let InstanceKind::Item(_) = inst.def {
                if let Some(k) = self.enqueue(inst) {
                    o.push(("inst", s(k)));
                }
            } else {
                o.push(("shim", s(shim_name(&inst.def))));
            }
            if let Some(im) = tcx.impl_of_assoc(rd) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let st = self.ty(tr.self_ty());
                    o.push(("rself", st));
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let raw = cur.ty.is_raw_ptr();
                    v.push(s(if raw { "*raw" } else { "*" }))
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(inst, t);
                    let t = self.ty(t);
                    v.push(J::A(vec![s("f"), u(f.as_usize()), t]))
                }
                ProjectionElem::Index(l) => v.push(J::A(vec![s("i"), u(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => v.push(J::A(vec![
                    s("ci"),
                    i(offset),
                    i(min_length),
                    J::B(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]))
                }
                ProjectionElem::Downcast(_, vi) => v.push(J::A(vec![s("d"), u(vi.as_usize())])),
                _ => v.push(s("?")),
            }
            cur = cur.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let ConstValue::Scalar(Scalar::Int(n)) = v {
                    let signed = t.is_signed();
                    let x = if signed { n.to_int(n.size()) } else { n.to_uint(n.size()) as i128 };
                    return J::O(vec![("int", J::I(x))]);
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            return J::O(vec![("str", s(String::from_utf8_lossy(b)))]);
                        }
                        return J::O(vec![("bytes", J::A(b.iter().map(|x| i(*x)).collect()))]);
                    }
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.global_alloc(aid) {
                        GlobalAlloc::Static(d) => {
                            return J::O(vec![
                                ("static", s(self.path(d))),
                                ("mut", J::B(tcx.is_mutable_static(d))),
                            ])
                        }
                        GlobalAlloc::Memory(_) => {
                            let c = ConstValue::Indirect { alloc_id: aid, offset: off };
                            if depth < 6 && inner.is_sized(tcx, self.env) {
                                let x = self.cval(c, *inner, depth + 1);
                                return J::O(vec![("ref", x)]);
                            }
                        }
                        _ => {}
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        return J::O(vec![
                            ("static", s(self.path(d))),
                            ("mut", J::B(tcx.is_mutable_static(d))),
                        ]);
                    }
                }
            }
            ty::FnDef(d, args) => {
                let args = tcx.erase_and_anonymize_regions(args.skip_binder());
                let c = self.callee(*d, args);
                return J::O(vec![("fn", c)]);
            }
            ty::Closure(d, args) => {
                let inst = Instance { def: InstanceKind::Item(*d), args };
                let k = self.enqueue(inst);
                return J::O(vec![("closure", k.map(s).unwrap_or(J::N))]);
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(a, _) = t.kind() {
                    self.adt(*a);
                }
                if depth < 6 {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> =
                            d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        return J::O(vec![
                            ("variant", d.variant.map(|x| u(x.as_usize())).unwrap_or(J::N)),
                            ("fields", J::A(fs)),
                        ]);
                    }
                }
            }
            _ => {}
        }
        let st = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
        J::O(vec![("other", s(st))])
    }

    fn konst(&mut self, inst: Instance<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let k = self.norm(inst, c.const_);
        let t = k.ty();
        let tid = self.ty(t);
        let mut o = vec![("ty", tid)];
        if let Const::Unevaluated(uv, _) = k {
            if let Some(p) = uv.promoted {
                let key = format!("{}::promoted[{}]", self.key(Instance { def: InstanceKind::Item(uv.def), args: uv.args }), p.as_usize());
                if self.seen.insert(key.clone()) {
                    let body = &tcx.promoted_mir(uv.def)[p];
                    let pinst = Instance { def: InstanceKind::Item(uv.def), args: uv.args };
                    let b = self.body(pinst, body, &key);
                    self.bodies.insert(key.clone(), b);
                }
                o.push(("promoted", s(key)));
                return J::O(o);
            }
            o.push(("item", s(self.path(uv.def))));
        }
        match k.eval(tcx, self.env, c.span) {
            Ok(v) => o.push(("v", self.cval(v, t, 0))),
            Err(_) => o.push(("v", J::O(vec![("other", s(with_no_trimmed_paths!(format!("{}", k))))]))),
        }
        J::O(o)
    }

    fn operand(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(inst, body, *p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(inst, body, *p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(inst, c)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(inst, body, op)]),
            Rvalue::Repeat(op, n) => {
                J::A(vec![s("repeat"), self.operand(inst, body, op), s(n.to_string())])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(inst, body, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(inst, body, *p)]),
            Rvalue::Cast(k, op, t) => {
                let t = self.norm(inst, *t);
                let from = self.norm(inst, op.ty(&body.local_decls, tcx));
                let from = self.ty(from);
                let t = self.ty(t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(inst, body, op), t, from])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.operand(inst, body, &ops.0),
                self.operand(inst, body, &ops.1),
            ]),
            Rvalue::UnaryOp(b, op) => {
                J::A(vec![s("un"), s(format!("{:?}", b)), self.operand(inst, body, op)])
            }
            Rvalue::Discriminant(p) => {
                let t = self.norm(inst, p.ty(&body.local_decls, tcx).ty);
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(inst, body, *p), t])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let adt = tcx.adt_def(*d);
                        self.adt(adt);
                        let args = self.norm(inst, *args);
                        let t = Ty::new_adt(tcx, adt, args);
                        let t = self.ty(t);
                        J::A(vec![s("adt"), s(self.path(*d)), u(v.as_usize()), t])
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.norm(inst, *args);
                        let ci = Instance { def: InstanceKind::Item(*d), args };
                        let k = self.enqueue(ci);
                        J::A(vec![s("closure"), k.map(s).unwrap_or(J::N)])
                    }
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(inst, body, o)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(inst, body, *p)])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, key: &str) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(inst, l.ty);
            locals.push(self.ty(t));
        }
        let mut names = BTreeMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), s(v.name));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(inst, body, b.0);
                        let r = self.rvalue(inst, body, &b.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(inst, body, **place);
                        st.push(J::A(vec![s("setd"), p, u(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(b) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", b))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.norm(inst, discr.ty(&body.local_decls, tcx));
                    let dt = self.ty(dt);
                    let v = targets
                        .iter()
                        .map(|(x, b)| J::A(vec![J::I(x as i128), u(b.as_usize())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(inst, body, discr),
                        J::A(v),
                        u(targets.otherwise().as_usize()),
                        dt,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = self.norm(inst, place.ty(&body.local_decls, tcx).ty);
                    let pt = self.ty(pt);
                    J::A(vec![s("drop"), self.place(inst, body, *place), u(target.as_usize()), pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = self.norm(inst, func.ty(&body.local_decls, tcx));
                    let callee = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = tcx.erase_and_anonymize_regions(a.skip_binder());
                            self.callee(*d, a)
                        }
                        _ => {
                            let o = self.operand(inst, body, func);
                            J::O(vec![("ptr", o)])
                        }
                    };
                    let a = args.iter().map(|x| self.operand(inst, body, &x.node)).collect();
                    let dt = self.norm(inst, destination.ty(&body.local_decls, tcx).ty);
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        callee,
                        J::A(a),
                        self.place(inst, body, *destination),
                        target.map(|b| u(b.as_usize())).unwrap_or(J::N),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        x => format!("{:?}", x).chars().take(30).collect(),
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(inst, body, cond),
                        J::B(*expected),
                        s(m),
                        u(target.as_usize()),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), u(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), u(real_target.as_usize())])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                x => J::A(vec![s("?"), s(format!("{:?}", x))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(key)),
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("span", self.span(body.span)),
            ("nargs", u(body.arg_count)),
            ("spread", body.spread_arg.map(|x| u(x.as_usize())).unwrap_or(J::N)),
            ("locals", J::A(locals)),
            ("names", J::M(names)),
            ("blocks", J::A(blocks)),
        ];
        if tcx.is_closure_like(d) {
            o.push(("parent", s(self.path(tcx.typeck_root_def_id(d)))));
        }
        if let Some(im) = tcx.impl_of_assoc(tcx.typeck_root_def_id(d)) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                let st = self.ty(tr.self_ty());
                o.push(("self_ty", st));
            } else {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.ty(t);
                o.push(("self_ty", st));
            }
        }
        if !tcx.is_closure_like(d) {
            o.push(("name", tcx.opt_item_name(d).map(s).unwrap_or(J::N)));
            if d.is_local() {
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
                }
            }
        }
        J::O(o)
    }
}

fn shim_name(k: &InstanceKind<'_>) -> String {
    let t = format!("{:?}", k);
    t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let inline: Vec<String> = std::env::var("MIRDUMP_INLINE")
            .unwrap_or_default()
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect();
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: vec![],
            type_ids: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            bodies: BTreeMap::new(),
            inline,
        };
        let mut roots = vec![];
        for d in tcx.mir_keys(()) {
            let d = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            cx.env = TypingEnv::post_analysis(tcx, d);
            let inst = Instance { def: InstanceKind::Item(d), args };
            if let Some(k) = cx.enqueue(inst) {
                roots.push(s(k));
            }
        }
        while let Some((k, inst, env)) = cx.queue.pop_front() {
            cx.env = env;
            let body = tcx.instance_mir(inst.def);
            let b = cx.body(inst, body, &k);
            cx.bodies.insert(k, b);
        }
        // impls
        let mut impls = vec![];
        for (tr, v) in tcx.all_local_trait_impls(()) {
            for im in v {
                let h = tcx.impl_trait_header(im.to_def_id());
                let t = h.trait_ref.instantiate_identity().skip_norm_wip();
                cx.env = TypingEnv::post_analysis(tcx, im.to_def_id());
                let st = cx.ty(t.self_ty());
                // for an unsafe impl of an auto trait: the fields which do not have it themselves
                let mut without = vec![];
                if h.safety.is_unsafe() && tcx.trait_is_auto(*tr) {
                    if let ty::Adt(a, args) = t.self_ty().kind() {
                        use rustc_infer::infer::TyCtxtInferExt;
                        use rustc_trait_selection::infer::InferCtxtExt;
                        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(cx.env);
                        for v in a.variants().iter() {
                            for f in v.fields.iter() {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                let ft = tcx.erase_and_anonymize_regions(ft);
                                if !infcx.type_implements_trait(*tr, [ft], penv).must_apply_modulo_regions() {
                                    without.push(s(f.name));
                                }
                            }
                        }
                    }
                }
                impls.push(J::O(vec![
                    ("without", J::A(without)),
                    ("auto", J::B(tcx.trait_is_auto(*tr))),
                    ("trait", s(cx.path(*tr))),
                    ("self_ty", st),
                    ("str", s(with_no_trimmed_paths!(t.to_string()))),
                    ("unsafe", J::B(h.safety.is_unsafe())),
                    ("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))),
                    ("span", cx.span(tcx.def_span(im.to_def_id()))),
                ]));
            }
        }
        // statics / foreign items / fns
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            match k {
                DefKind::Static { .. } | DefKind::Union | DefKind::ForeignMod | DefKind::Struct | DefKind::Enum | DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } => {
                    let d = id.to_def_id();
                    let mut o = vec![
                        ("path", s(cx.path(d))),
                        ("kind", s(format!("{:?}", k))),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if matches!(k, DefKind::Static { .. }) {
                        o.push(("mut", J::B(tcx.is_mutable_static(d))));
                    }
                    if matches!(k, DefKind::Static { .. } | DefKind::Struct | DefKind::Enum) {
                        cx.env = TypingEnv::post_analysis(tcx, d);
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let t2 = cx.ty(t);
                        o.push(("ty", t2));
                        if let ty::Adt(a, args) = t.kind() {
                            let mut fs = vec![];
                            for v in a.variants().iter() {
                                for f in v.fields.iter() {
                                    let ft = f.ty(tcx, args).skip_norm_wip();
                                    let ft = cx.ty(ft);
                                    fs.push(J::A(vec![s(v.name), s(f.name), ft, J::B(f.vis.is_public())]));
                                }
                            }
                            o.push(("fields", J::A(fs)));
                        }
                    }
                    items.push(J::O(o));
                }
                _ => {}
            }
        }
        // names visible from outside: module path, name, what it is
        let mut exports = vec![];
        let mut mods: Vec<rustc_hir::def_id::LocalDefId> = vec![rustc_hir::def_id::CRATE_DEF_ID];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Mod) {
                mods.push(id);
            }
        }
        for m in mods {
            for c in tcx.module_children_local(m) {
                if !c.vis.is_public() {
                    continue;
                }
                if let Some(d) = c.res.opt_def_id() {
                    let mp = if m == rustc_hir::def_id::CRATE_DEF_ID { String::new() } else { cx.path(m.to_def_id()) };
                    exports.push(J::A(vec![s(mp), s(c.ident), s(cx.path(d)), s(format!("{:?}", tcx.def_kind(d)))]));
                }
            }
        }
        let top = J::O(vec![
            ("exports", J::A(exports)),
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("roots", J::A(roots)),
            ("types", J::A(cx.types.clone())),
            ("adts", J::M(cx.adts.clone())),
            ("bodies", J::M(std::mem::take(&mut cx.bodies))),
            ("impls", J::A(impls)),
            ("items", J::A(items)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "htrpc");
    if is_target && !out.is_empty() {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
