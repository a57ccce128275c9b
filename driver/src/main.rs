//! A rustc driver that type-checks one crate and writes what the analyses need as JSON: the MIR of every body
//! (drop-elaborated, unoptimised), callees resolved through the type checker, type definitions with attributes,
//! and evaluated constants. Used as RUSTC_WORKSPACE_WRAPPER; facts are written for the crate named in FACTS_CRATE.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

/// Minimal JSON value (the driver has no dependencies).
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(t) => esc(t, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    /// Closures (definition paths) mentioned in a type, outermost first.
    fn closures(&self, t: Ty<'tcx>) -> J {
        let mut v = vec![];
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    ty::Closure(d, _) => v.push(s(self.path(*d))),
                    ty::FnDef(d, _) => v.push(s(self.path(*d))),
                    _ => {}
                }
            }
        }
        J::A(v)
    }
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn tcx(&self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() || a.is_struct() {
                                a.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        ty::Closure(d, _) => d
                            .as_local()
                            .and_then(|l| self.tcx().closure_captures(l).get(f.as_usize()).map(|c| c.to_symbol().to_string()))
                            .unwrap_or_else(|| f.as_usize().to_string()),
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![s("."), J::I(f.as_usize() as i128), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    J::A(vec![s("[c]"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("[..]"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).unwrap_or_else(|| v.as_usize().to_string());
                    J::A(vec![s("as"), s(name), J::I(v.as_usize() as i128)])
                }
                _ => J::A(vec![s("?")]),
            });
            pty = pty.projection_ty(self.tcx(), e);
        }
        if proj.is_empty() {
            J::I(p.local.as_usize() as i128)
        } else {
            let mut v = vec![J::I(p.local.as_usize() as i128)];
            v.extend(proj);
            J::A(v)
        }
    }
    fn place_ty(&self, p: &Place<'tcx>) -> Ty<'tcx> {
        p.ty(self.body, self.tcx()).ty
    }
    fn bytes_of_ptr(&self, ptr: mir::interpret::Pointer, len: u64) -> Option<Vec<u8>> {
        let (prov, off) = ptr.into_raw_parts();
        match self.tcx().global_alloc(prov.alloc_id()) {
            mir::interpret::GlobalAlloc::Memory(m) => {
                let o = off.bytes_usize();
                Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_json(b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(t) => s(t),
            Err(_) => J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.skip_binder());
        }
        let tys = self.cx.ty(t);
        let mut named = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                named = s(self.cx.path(u.def));
            } else {
                named = s(format!("{}::promoted[{}]", self.cx.path(u.def), u.promoted.unwrap().as_usize()));
            }
        }
        let val = match c.const_.eval(self.tcx(), self.env, c.span) {
            Ok(v) => self.const_value(v, t),
            Err(_) => J::Null,
        };
        J::O(vec![("k", s("const")), ("ty", s(tys)), ("v", val), ("name", named), ("cl", self.cx.closures(t))])
    }
    fn const_value(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(sc) => match t.kind() {
                ty::Bool => sc.to_bool().discard_err().map(J::B).unwrap_or(J::Null),
                ty::Int(_) => {
                    let i = sc.to_scalar_int().discard_err();
                    i.map(|i| J::I(i.to_int(i.size()))).unwrap_or(J::Null)
                }
                ty::Uint(_) => {
                    let i = sc.to_scalar_int().discard_err();
                    i.map(|i| J::I(i.to_uint(i.size()) as i128)).unwrap_or(J::Null)
                }
                ty::Char => sc.to_char().discard_err().map(|c| s(c.to_string())).unwrap_or(J::Null),
                ty::Float(ty::FloatTy::F64) => {
                    let i = sc.to_scalar_int().discard_err();
                    i.map(|i| s(format!("{}", f64::from_bits(i.to_uint(i.size()) as u64)))).unwrap_or(J::Null)
                }
                ty::Ref(_, inner, _) => {
                    if let mir::interpret::Scalar::Ptr(p, _) = sc {
                        if let ty::Array(e, n) = inner.kind() {
                            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                if let Some(n) = n.try_to_target_usize(self.tcx()) {
                                    if let Some(b) = self.bytes_of_ptr(p, n) {
                                        return J::A(b.iter().map(|x| J::I(*x as i128)).collect());
                                    }
                                }
                            }
                        }
                        if let Some(j) = self.deref_const(p, *inner) {
                            return j;
                        }
                    }
                    J::Null
                }
                _ => J::Null,
            },
            ConstValue::ZeroSized => s("<zst>"),
            ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(self.tcx()) {
                Some(b) => Self::bytes_json(b),
                None => J::Null,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                let p = mir::interpret::Pointer::new(alloc_id.into(), offset);
                self.deref_const(p, t).unwrap_or(J::Null)
            }
        }
    }
    /// Reads a constant aggregate made of &str, integers, arrays and tuples.
    fn deref_const(&self, p: mir::interpret::Pointer, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx();
        let layout = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let (prov, off) = p.into_raw_parts();
        let m = match tcx.global_alloc(prov.alloc_id()) {
            mir::interpret::GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let read_ptr = |o: rustc_abi::Size, sz: rustc_abi::Size, prv: bool| {
            m.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: o, size: sz }, prv).discard_err_()
        };
        match t.kind() {
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = tcx.data_layout.pointer_size();
                let sc = read_ptr(off, ps, true)?;
                if let mir::interpret::Scalar::Ptr(q, _) = sc {
                    match inner.kind() {
                        ty::Str => {
                            let n = read_ptr(off + ps, ps, false)?.to_scalar_int().discard_err()?;
                            let b = self.bytes_of_ptr(q, n.to_uint(n.size()) as u64)?;
                            Some(Self::bytes_json(&b))
                        }
                        ty::Slice(e) => {
                            let n = read_ptr(off + ps, ps, false)?.to_scalar_int().discard_err()?;
                            let el = tcx.layout_of(self.env.as_query_input(*e)).ok()?.size;
                            let (qp, qo) = q.into_raw_parts();
                            let mut v = vec![];
                            for i in 0..n.to_uint(n.size()) as u64 {
                                v.push(self.deref_const(mir::interpret::Pointer::new(qp, qo + el * i), *e)?);
                            }
                            Some(J::A(v))
                        }
                        _ => self.deref_const(q, *inner),
                    }
                } else {
                    None
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(self.env.as_query_input(*e)).ok()?.size;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.deref_const(mir::interpret::Pointer::new(prov, off + el * i), *e)?);
                }
                Some(J::A(v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.deref_const(mir::interpret::Pointer::new(prov, off + layout.fields.offset(i)), e)?);
                }
                Some(J::A(v))
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                let sc = read_ptr(off, layout.size, false)?;
                Some(self.const_value(ConstValue::Scalar(sc), t))
            }
            _ => None,
        }
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx();
        let mut f = vec![("k", s("fn")), ("path", s(self.cx.path(d)))];
        let tys: Vec<J> = args.types().map(|t| s(self.cx.ty(t))).collect();
        f.push(("targs", J::A(tys)));
        let cl: Vec<J> = args.types().map(|t| self.cx.closures(t)).collect();
        f.push(("tcl", J::A(cl)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", s(self.cx.path(tr))));
            f.push(("assoc", s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = norm(tcx.type_of(im).instantiate_identity());
            f.push(("inherent", s(self.cx.ty(st))));
            f.push(("assoc", s(tcx.item_name(d).to_string())));
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let k = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                f.push(("res", s(self.cx.path(i.def_id()))));
                f.push(("local", J::B(i.def_id().is_local())));
                f.push(("rk", s(k)));
            }
            _ => {
                f.push(("res", J::Null));
                f.push(("local", J::B(d.is_local())));
            }
        }
        J::O(f)
    }
    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("k", s("repeat")),
                ("o", self.operand(o)),
                ("n", n.try_to_target_usize(self.tcx()).map(|n| J::I(n as i128)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("ref")), ("mut", J::B(true)), ("p", self.place(p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{k:?}"))),
                ("o", self.operand(o)),
                ("ty", s(self.cx.ty(*t))),
                ("from", s(self.cx.ty(o.ty(self.body, self.tcx())))),
            ]),
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(&b.0)),
                ("b", self.operand(&b.1)),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::O(vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("o", self.operand(o))])
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p);
                let mut vs = vec![];
                let mut en = String::new();
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        en = self.cx.path(a.did());
                        for (vi, d) in a.discriminants(self.tcx()) {
                            vs.push(J::A(vec![J::I(d.val as i128), s(a.variant(vi).name.to_string())]));
                        }
                    }
                }
                J::O(vec![("k", s("discr")), ("p", self.place(p)), ("enum", s(en)), ("variants", J::A(vs))])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.operand(o)).collect();
                let mut v = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("a", s("array"))),
                    AggregateKind::Tuple => v.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, ..) => {
                        let a = self.tcx().adt_def(*d);
                        v.push(("a", s("adt")));
                        v.push(("adt", s(self.cx.path(*d))));
                        v.push(("enum", J::B(a.is_enum())));
                        v.push(("variant", s(a.variant(*vi).name.to_string())));
                        v.push(("fields", J::A(a.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect())));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("a", s("closure")));
                        v.push(("def", s(self.cx.path(*d))));
                        let caps = d
                            .as_local()
                            .map(|l| self.tcx().closure_captures(l).iter().map(|c| s(c.to_symbol().to_string())).collect())
                            .unwrap_or_default();
                        v.push(("fields", J::A(caps)));
                    }
                    _ => v.push(("a", s("other"))),
                }
                v.push(("ops", J::A(ops)));
                J::O(v)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(p))]))])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("p", self.place(p))])
            }
            other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
        }
    }
    fn terminator(&self, t: &Terminator<'tcx>) -> J {
        let bb = |b: &BasicBlock| J::I(b.as_usize() as i128);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bb(target))],
            TerminatorKind::SwitchInt { discr, targets } => {
                let dty = discr.ty(self.body, self.tcx());
                vec![
                    ("k", s("switch")),
                    ("o", self.operand(discr)),
                    ("ty", s(self.cx.ty(dty))),
                    ("ts", J::A(targets.iter().map(|(v, b)| J::A(vec![
                        if let ty::Int(it) = dty.kind() {
                            let bits = it.normalize(64).bit_width().unwrap_or(64);
                            J::I(((v << (128 - bits)) as i128) >> (128 - bits))
                        } else { J::I(v as i128) },
                        J::I(b.as_usize() as i128)])).collect())),
                    ("else", bb(&targets.otherwise())),
                ]
            }
            TerminatorKind::Return => vec![("k", s("return"))],
            TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
            TerminatorKind::Drop { place, target, replace, .. } => vec![
                ("k", s("drop")),
                ("p", self.place(place)),
                ("ty", s(self.cx.ty(self.place_ty(place)))),
                ("replace", J::B(*replace)),
                ("t", bb(target)),
            ],
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => vec![
                ("k", s("call")),
                ("f", self.operand(func)),
                ("args", J::A(args.iter().map(|a| self.operand(&a.node)).collect())),
                ("argtys", J::A(args.iter().map(|a| s(self.cx.ty(a.node.ty(self.body, self.tcx())))).collect())),
                ("dest", self.place(destination)),
                ("dty", s(self.cx.ty(self.place_ty(destination)))),
                ("t", target.as_ref().map(bb).unwrap_or(J::Null)),
                ("fs", self.cx.span(*fn_span)),
            ],
            TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                ("k", s("assert")),
                ("o", self.operand(cond)),
                ("exp", J::B(*expected)),
                ("msg", s(match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                })),
                ("t", bb(target)),
            ],
            TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bb(real_target))],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bb(real_target))],
            other => vec![("k", s("other")), ("dbg", s(format!("{other:?}")))],
        };
        v.push(("sp", self.cx.span(t.source_info.span)));
        v.push(("exp_", J::B(t.source_info.span.from_expansion())));
        J::O(v)
    }
    fn dump(&self, def: LocalDefId, promoted: bool) -> Vec<(&'static str, J)> {
        let tcx = self.tcx();
        let mut names: Vec<J> = vec![];
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p)]));
            }
        }
        let locals = self.body.local_decls.iter().map(|d| s(self.cx.ty(d.ty))).collect();
        let mut blocks = vec![];
        for (_, b) in self.body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(J::A(vec![s("="), self.place(p), self.rvalue(r), self.cx.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(place),
                        J::I(variant_index.as_usize() as i128),
                    ])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::I(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", self.terminator(b.terminator())),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        let kind = tcx.def_kind(def);
        let parent = tcx.typeck_root_def_id(def.to_def_id());
        vec![
            ("kind", s(if promoted { "Promoted".to_string() } else { format!("{kind:?}") })),
            ("root", s(self.cx.path(parent))),
            ("span", self.cx.span(tcx.def_span(def))),
            ("argc", J::I(self.body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

trait DiscardErr<T> {
    fn discard_err_(self) -> Option<T>;
}
impl<T, E> DiscardErr<T> for Result<T, E> {
    fn discard_err_(self) -> Option<T> {
        self.ok()
    }
}

fn emit(tcx: TyCtxt<'_>, out: &str) {
    let cx = Cx { tcx };
    let mut fns = vec![];
    let mut consts = vec![];
    for def in tcx.hir_body_owners() {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(def.to_def_id()) {
                    continue;
                }
                let body = tcx.optimized_mir(def);
                let env = TypingEnv::post_analysis(tcx, def);
                let b = BodyCx { cx: &cx, body, env };
                let mut d = b.dump(def, false);
                let attrs_derived = {
                    let root = tcx.typeck_root_def_id(def.to_def_id());
                    tcx.opt_parent(root).map(|p| tcx.is_automatically_derived(p)).unwrap_or(false)
                };
                d.push(("derived", J::B(attrs_derived || tcx.def_span(def).from_expansion())));
                d.push(("pub", J::B(tcx.visibility(tcx.typeck_root_def_id(def.to_def_id())).is_public())));
                if let Some(im) = tcx.impl_of_assoc(def.to_def_id()) {
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity();
                        d.push(("impl_trait", s(with_no_trimmed_paths!(format!("{:?}", tr)))));
                    }
                    d.push(("item_name", s(tcx.item_name(def.to_def_id()).to_string())));
                }
                fns.push((cx.path(def.to_def_id()), J::O(d)));
                for (i, pb) in tcx.promoted_mir(def.to_def_id()).iter_enumerated() {
                    let b = BodyCx { cx: &cx, body: pb, env };
                    let mut d = b.dump(def, true);
                    d.push(("derived", J::B(true)));
                    d.push(("pub", J::B(false)));
                    fns.push((format!("{}::promoted[{}]", cx.path(def.to_def_id()), i.as_usize()), J::O(d)));
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let mut d = vec![("span", cx.span(tcx.def_span(def)))];
                if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. })
                    && tcx.generics_of(def).own_params.is_empty()
                    && tcx.generics_of(def).parent_count == 0
                {
                    if let Ok(v) = tcx.const_eval_poly(def.to_def_id()) {
                        let t = tcx.type_of(def).instantiate_identity();
                        let t = norm(t);
                        let body = tcx.mir_for_ctfe(def);
                        let env = TypingEnv::post_analysis(tcx, def);
                        let b = BodyCx { cx: &cx, body, env };
                        d.push(("ty", s(cx.ty(t))));
                        d.push(("v", b.const_value(v, t)));
                    }
                }
                consts.push((cx.path(def.to_def_id()), J::O(d)));
            }
            _ => {}
        }
    }
    let mut types = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let kind = tcx.def_kind(id);
        match kind {
            DefKind::Struct | DefKind::Enum => {
                let a = tcx.adt_def(id.to_def_id());
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let attrs = attrs_of(tcx, f.did);
                        let t = norm(tcx.type_of(f.did).instantiate_identity());
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", s(cx.ty(t))),
                            ("attrs", J::A(attrs)),
                        ]));
                    }
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("fields", J::A(fs)),
                        ("attrs", J::A(attrs_of(tcx, v.def_id))),
                    ]));
                }
                types.push((
                    cx.path(id.to_def_id()),
                    J::O(vec![
                        ("kind", s(format!("{kind:?}"))),
                        ("span", cx.span(tcx.def_span(id))),
                        ("attrs", J::A(attrs_of(tcx, id.to_def_id()))),
                        ("variants", J::A(vs)),
                    ]),
                ));
            }
            DefKind::Impl { .. } => {
                let mut d = vec![("span", cx.span(tcx.def_span(id)))];
                let st = norm(tcx.type_of(id).instantiate_identity());
                d.push(("self", s(cx.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(id) {
                    let tr = norm(tr.instantiate_identity());
                    d.push(("trait", s(cx.path(tr.def_id))));
                }
                let items: Vec<J> = tcx
                    .associated_item_def_ids(id)
                    .iter()
                    .map(|d| J::A(vec![s(tcx.opt_item_name(*d).map(|n| n.to_string()).unwrap_or_default()), s(cx.path(*d))]))
                    .collect();
                d.push(("items", J::A(items)));
                impls.push(J::O(d));
            }
            _ => {}
        }
    }
    let top = J::O(vec![
        ("fns", J::M(fns)),
        ("consts", J::M(consts)),
        ("types", J::M(types)),
        ("impls", J::A(impls)),
    ]);
    let mut o = String::new();
    top.w(&mut o);
    std::fs::write(out, o).expect("write facts");
}

fn norm<T: Norm>(t: T) -> T::Out {
    t.norm()
}
trait Norm {
    type Out;
    fn norm(self) -> Self::Out;
}
impl<'tcx> Norm for Ty<'tcx> {
    type Out = Ty<'tcx>;
    fn norm(self) -> Self {
        self
    }
}
impl<'tcx> Norm for ty::TraitRef<'tcx> {
    type Out = Self;
    fn norm(self) -> Self {
        self
    }
}
impl<'tcx, T> Norm for ty::Unnormalized<'tcx, T> {
    type Out = T;
    fn norm(self) -> T {
        self.skip_norm_wip()
    }
}

fn attrs_of(tcx: TyCtxt<'_>, d: DefId) -> Vec<J> {
    let Some(l) = d.as_local() else { return vec![] };
    let sm = tcx.sess.source_map();
    let _ = &sm;
    tcx.hir_attrs(tcx.local_def_id_to_hir_id(l))
        .iter()
        .map(|a| match a {
            rustc_attr_ir::Attribute::Tool(i) | rustc_attr_ir::Attribute::DeriveHelper(i) => {
                let sp = i.span;
                s(sm.span_to_snippet(sp).unwrap_or_else(|_| format!("{:?}", i.path)))
            }
            _ => s("<parsed>"),
        })
        .collect()
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("FACTS_OUT") {
            let want = std::env::var("FACTS_CRATE").unwrap_or_default();
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            if name == want {
                emit(tcx, &out);
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: <wrapper> <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
