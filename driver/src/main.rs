//! Dumps the resolved MIR (phase: drops elaborated, const checked; before any
//! optimisation) of the crate named by QESA_MIR_CRATE to QESA_MIR_OUT, as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar as IScalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => esc(t, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        J::S(format!("{}:{}", f, l.line))
    }
    fn generic_args(&self, args: ty::GenericArgsRef<'tcx>, depth: usize) -> J {
        J::A(
            args.iter()
                .filter_map(|a| {
                    if let Some(t) = a.as_type() {
                        Some(self.ty(t, depth + 1))
                    } else if let Some(c) = a.as_const() {
                        Some(J::O(vec![("k", s("const")), ("v", s(format!("{}", c)))]))
                    } else {
                        None
                    }
                })
                .collect(),
        )
    }
    fn ty(&self, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        let k = |n: &'static str| ("k", s(n));
        match t.kind() {
            TyKind::Bool => J::O(vec![k("bool")]),
            TyKind::Char => J::O(vec![k("char")]),
            TyKind::Int(i) => J::O(vec![k("int"), ("n", s(i.name_str()))]),
            TyKind::Uint(i) => J::O(vec![k("uint"), ("n", s(i.name_str()))]),
            TyKind::Float(i) => J::O(vec![k("float"), ("n", s(i.name_str()))]),
            TyKind::Adt(def, args) => J::O(vec![
                k("adt"),
                ("p", s(self.path(def.did()))),
                ("c", s(self.tcx.crate_name(def.did().krate).to_string())),
                ("a", self.generic_args(args, depth)),
            ]),
            TyKind::Str => J::O(vec![k("str")]),
            TyKind::Array(e, n) => J::O(vec![
                k("array"),
                ("e", self.ty(*e, depth + 1)),
                (
                    "n",
                    match n.try_to_target_usize(self.tcx) {
                        Some(v) => J::I(v as i128),
                        None => J::Null,
                    },
                ),
            ]),
            TyKind::Slice(e) => J::O(vec![k("slice"), ("e", self.ty(*e, depth + 1))]),
            TyKind::RawPtr(e, m) => J::O(vec![
                k("ptr"),
                ("e", self.ty(*e, depth + 1)),
                ("m", J::B(m.is_mut())),
            ]),
            TyKind::Ref(_, e, m) => J::O(vec![
                k("ref"),
                ("e", self.ty(*e, depth + 1)),
                ("m", J::B(m.is_mut())),
            ]),
            TyKind::Tuple(es) => J::O(vec![
                k("tuple"),
                ("a", J::A(es.iter().map(|e| self.ty(e, depth + 1)).collect())),
            ]),
            TyKind::Closure(d, args) => J::O(vec![
                k("closure"),
                ("p", s(self.path(*d))),
                (
                    "a",
                    J::A(
                        args.as_closure()
                            .upvar_tys()
                            .iter()
                            .map(|e| self.ty(e, depth + 1))
                            .collect(),
                    ),
                ),
            ]),
            TyKind::FnDef(d, args) => J::O(vec![
                k("fndef"),
                ("p", s(self.path(*d))),
                ("a", self.generic_args(args.skip_binder(), depth)),
            ]),
            TyKind::Never => J::O(vec![k("never")]),
            TyKind::Param(p) => J::O(vec![k("param"), ("n", s(p.name.as_str()))]),
            _ => J::O(vec![k("other"), ("t", s(format!("{}", t)))]),
        }
    }

    fn bytes_of(&self, prov: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(prov) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.size().bytes() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(
                        off as usize..(off + len) as usize,
                    )
                    .to_vec(),
                )
            }
            _ => None,
        }
    }
    fn bytes_json(b: &[u8]) -> J {
        let t: String = b.iter().map(|c| *c as char).collect();
        J::S(t)
    }

    fn constant(&self, c: &ConstOperand<'tcx>, owner: DefId) -> J {
        let t = c.const_.ty();
        let mut o = vec![("o", s("const")), ("ty", self.ty(t, 0))];
        if let TyKind::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.callee(*d, args)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                o.push(("powner", s(self.path(u.def))));
                let _ = owner;
            } else {
                o.push(("def", s(self.path(u.def))));
                o.push((
                    "defcrate",
                    s(self.tcx.crate_name(u.def.krate).to_string()),
                ));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("param", s(format!("{}", ct))));
        }
        let is_promoted_generic = false;
        if !is_promoted_generic {
            if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                match v {
                    ConstValue::Scalar(IScalar::Int(i)) => {
                        let sz = i.size();
                        let v: i128 = if matches!(t.kind(), TyKind::Int(_)) {
                            i.to_int(sz)
                        } else {
                            i.to_bits(sz) as i128
                        };
                        o.push(("int", J::I(v)));
                    }
                    ConstValue::Scalar(IScalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let TyKind::Ref(_, inner, _) = t.kind() {
                            if let TyKind::Array(e, n) = inner.kind() {
                                if matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)) {
                                    if let Some(n) = n.try_to_target_usize(self.tcx) {
                                        if let Some(b) =
                                            self.bytes_of(prov.alloc_id(), off.bytes(), n)
                                        {
                                            o.push(("bytes", Self::bytes_json(&b)));
                                        }
                                    }
                                }
                            }
                        }
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                            o.push(("static", s(self.path(d))));
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let TyKind::Ref(_, inner, _) = t.kind() {
                            let is_bytes = match inner.kind() {
                                TyKind::Str => true,
                                TyKind::Slice(e) => {
                                    matches!(e.kind(), TyKind::Uint(ty::UintTy::U8))
                                }
                                _ => false,
                            };
                            if is_bytes {
                                if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                                    o.push(("bytes", Self::bytes_json(&b)));
                                }
                            }
                        }
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sl = match t.kind() {
                            TyKind::Ref(_, inner, _) => match inner.kind() {
                                TyKind::Str => true,
                                TyKind::Slice(e) => {
                                    matches!(e.kind(), TyKind::Uint(ty::UintTy::U8))
                                }
                                _ => false,
                            },
                            _ => false,
                        };
                        let arr = match t.kind() {
                            TyKind::Array(e, n)
                                if matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)) =>
                            {
                                n.try_to_target_usize(self.tcx)
                            }
                            _ => None,
                        };
                        if sl {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                o.push(("bytes", Self::bytes_json(b)));
                            }
                        } else if let Some(n) = arr {
                            if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), n) {
                                o.push(("bytes", Self::bytes_json(&b)));
                            }
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                }
            }
        }
        J::O(o)
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("p", s(self.path(d))),
            ("c", s(tcx.crate_name(d.krate).to_string())),
            ("a", self.generic_args(args, 0)),
            ("local", J::B(d.is_local())),
        ];
        let kind = tcx.def_kind(d);
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("name", s(tcx.item_name(d).to_string())));
        } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        if matches!(kind, DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(sig.skip_binder().safety().is_unsafe())));
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = i.def_id();
                o.push((
                    "r",
                    J::O(vec![
                        ("p", s(self.path(rd))),
                        ("c", s(tcx.crate_name(rd.krate).to_string())),
                        ("local", J::B(rd.is_local())),
                        (
                            "body",
                            J::B(matches!(i.def, ty::InstanceKind::Item(_))),
                        ),
                        ("a", self.generic_args(i.args, 0)),
                    ]),
                ));
            }
        }
        J::O(o)
    }

    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut proj = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = J::Null;
                    if let TyKind::Adt(def, _) = pty.ty.kind() {
                        let v = match pty.variant_index {
                            Some(v) => def.variant(v),
                            None => {
                                if def.is_enum() {
                                    def.variants().iter().next().unwrap()
                                } else {
                                    def.non_enum_variant()
                                }
                            }
                        };
                        name = v.fields[f].name.to_string();
                        owner = s(self.path(def.did()));
                    }
                    J::A(vec![s("f"), s(name), J::I(f.as_usize() as i128), owner])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("d"),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                    J::I(v.as_usize() as i128),
                ]),
                _ => J::A(vec![s("?")]),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::O(vec![
            ("l", J::I(p.local.as_usize() as i128)),
            ("p", J::A(proj)),
            ("t", self.ty(pty.ty, 0)),
        ])
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("o", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("o", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.constant(c, body.source.def_id()),
            Operand::RuntimeChecks(_) => J::O(vec![
                ("o", s("const")),
                ("ty", J::O(vec![("k", s("bool"))])),
                ("int", J::I(0)),
            ]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("x", self.operand(o, body))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", s("repeat")),
                ("x", self.operand(o, body)),
                (
                    "n",
                    n.try_to_target_usize(self.tcx)
                        .map(|v| J::I(v as i128))
                        .unwrap_or(J::Null),
                ),
            ]),
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("r", s("ref")),
                ("m", J::B(matches!(k, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", s("use")),
                ("x", J::O(vec![("o", s("copy")), ("p", self.place(p, body))])),
                ("m", J::B(m.is_mut())),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![
                ("r", s("rawptr")),
                ("p", self.place(p, body)),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("r", s("tls")), ("d", s(self.path(*d)))])
            }
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("ck", s(format!("{:?}", k))),
                ("x", self.operand(o, body)),
                ("from", self.ty(o.ty(body, self.tcx), 0)),
                ("to", self.ty(*t, 0)),
            ]),
            Rvalue::BinaryOp(b, x) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", self.operand(&x.0, body)),
                ("b", self.operand(&x.1, body)),
            ]),
            Rvalue::UnaryOp(u, x) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", u))),
                ("x", self.operand(x, body)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let mut vs = Vec::new();
                if let TyKind::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            vs.push(J::A(vec![
                                J::I(d.val as i128),
                                s(def.variant(vi).name.to_string()),
                            ]));
                        }
                    }
                }
                J::O(vec![
                    ("r", s("discr")),
                    ("p", self.place(p, body)),
                    ("vs", J::A(vs)),
                ])
            }
            Rvalue::Aggregate(k, xs) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("array"))),
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        o.push(("k", s("adt")));
                        o.push(("adt", s(self.path(*d))));
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        o.push(("variant", s(var.name.to_string())));
                        o.push(("enum", J::B(def.is_enum())));
                        let names: Vec<J> = if let Some(a) = active {
                            vec![s(var.fields[*a].name.to_string())]
                        } else {
                            var.fields.iter().map(|f| s(f.name.to_string())).collect()
                        };
                        o.push(("fields", J::A(names)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("closure", s(self.path(*d))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                o.push(("xs", J::A(xs.iter().map(|x| self.operand(x, body)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("x", J::O(vec![("o", s("copy")), ("p", self.place(p, body))])),
            ]),
            Rvalue::WrapUnsafeBinder(o, _) => {
                J::O(vec![("r", s("use")), ("x", self.operand(o, body))])
            }
        }
    }

    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty, 0));
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![
                        J::I(p.local.as_usize() as i128),
                        s(v.name.as_str()),
                    ]));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        st.push(J::O(vec![
                            ("s", s("=")),
                            ("p", self.place(&b.0, body)),
                            ("v", self.rvalue(&b.1, body)),
                            ("at", self.span(x.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => st.push(J::O(vec![
                        ("s", s("setdiscr")),
                        ("p", self.place(place, body)),
                        ("v", J::I(variant_index.as_usize() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let b = |x: BasicBlock| J::I(x.as_usize() as i128);
            let mut o: Vec<(&'static str, J)> = Vec::new();
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", b(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    o.push(("x", self.operand(discr, body)));
                    o.push(("ty", self.ty(discr.ty(body, self.tcx), 0)));
                    o.push((
                        "cases",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, t)| J::A(vec![J::I(v as i128), b(t)]))
                                .collect(),
                        ),
                    ));
                    o.push(("else", b(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("t", s("return"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("t", s("drop")));
                    o.push(("p", self.place(place, body)));
                    o.push(("to", b(*target)));
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    o.push(("t", s("call")));
                    o.push(("f", self.operand(func, body)));
                    o.push((
                        "args",
                        J::A(args.iter().map(|a| self.operand(&a.node, body)).collect()),
                    ));
                    o.push(("dest", self.place(destination, body)));
                    o.push(("to", target.map(b).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    o.push(("t", s("assert")));
                    o.push(("x", self.operand(cond, body)));
                    o.push(("expected", J::B(*expected)));
                    o.push(("to", b(*target)));
                    let (k, ops): (&str, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds",
                            vec![self.operand(len, body), self.operand(index, body)],
                        ),
                        AssertKind::Overflow(op, a, c) => {
                            let _ = op;
                            ("overflow", vec![self.operand(a, body), self.operand(c, body)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow", vec![self.operand(a, body)]),
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => {
                            ("divzero", vec![self.operand(a, body)])
                        }
                        _ => ("other", vec![]),
                    };
                    o.push(("kind", s(k)));
                    if let AssertKind::Overflow(op, ..) = &**msg {
                        o.push(("op", s(format!("{:?}", op))));
                    }
                    o.push(("ops", J::A(ops)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", b(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", b(*real_target)));
                }
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::Unreachable => o.push(("t", s("dead"))),
                other => {
                    o.push(("t", s("unsupported")));
                    o.push(("d", s(format!("{:?}", other))));
                }
            }
            o.push(("at", self.span(t.source_info.span)));
            o.push(("cleanup", J::B(bb.is_cleanup)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o))]));
        }
        vec![
            ("args", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ]
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut fns = Vec::new();
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    let mut stolen = 0i128;
    let effvis = tcx.effective_visibilities(());
    for k in keys {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        let kname = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "fn",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            DefKind::Ctor(..) => continue,
            _ => "other",
        };
        let cx = Cx {
            tcx,
            env: ty::TypingEnv::post_analysis(tcx, d),
        };
        let mut o = vec![("path", s(cx.path(d))), ("kind", s(kname))];
        if let DefKind::Static { mutability, .. } = kind {
            o.push(("staticmut", J::B(mutability.is_mut())));
        }
        if kname == "fn" {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(sig.skip_binder().safety().is_unsafe())));
            o.push(("exported", J::B(effvis.is_exported(k))));
            o.push((
                "pub",
                J::B(tcx.visibility(d).is_public()),
            ));
            if let Some(imp) = tcx.trait_impl_of_assoc(d) {
                let tr = tcx.impl_trait_ref(imp);
                o.push(("implof", s(cx.path(tr.skip_binder().def_id))));
                o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            }
        }
        if kname == "const" || kname == "static" || kname == "other" {
            fns.push(J::O(o));
            continue;
        }
        let steal = tcx.mir_drops_elaborated_and_const_checked(k);
        if steal.is_stolen() {
            stolen += 1;
            let b = tcx.optimized_mir(d);
            o.push(("phase", s("optimized")));
            o.extend(cx.body(b));
        } else {
            let b = steal.borrow();
            o.extend(cx.body(&b));
        }
        let proms = tcx.promoted_mir(d);
        let mut pj = Vec::new();
        for p in proms.iter() {
            pj.push(J::O(cx.body(p)));
        }
        o.push(("promoted", J::A(pj)));
        fns.push(J::O(o));
    }
    // local ADTs
    let mut adts = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let cx = Cx {
                tcx,
                env: ty::TypingEnv::post_analysis(tcx, d),
            };
            let def = tcx.adt_def(d);
            let mut vs = Vec::new();
            for v in def.variants() {
                let fs: Vec<J> = v
                    .fields
                    .iter()
                    .map(|f| {
                        J::O(vec![
                            ("n", s(f.name.to_string())),
                            (
                                "ty",
                                cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), 0),
                            ),
                            ("vis", s(format!("{:?}", f.vis))),
                            ("pub", J::B(f.vis.is_public())),
                        ])
                    })
                    .collect();
                vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
            }
            adts.push(J::O(vec![
                ("path", s(cx.path(d))),
                ("exported", J::B(effvis.is_exported(id))),
                ("variants", J::A(vs)),
            ]));
        }
    }
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("stolen", J::I(stolen)),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
    ]);
    let mut o = String::new();
    root.write(&mut o);
    std::fs::write(out, o).expect("write MIR dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("QESA_MIR_CRATE").unwrap_or_default();
        if let Ok(out) = std::env::var("QESA_MIR_OUT") {
            if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == want {
                dump(tcx, &out);
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // extra flags for the crate under analysis only
    let want = std::env::var("QESA_MIR_CRATE").unwrap_or_default();
    if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) {
        if let Ok(x) = std::env::var("QESA_MIR_FLAGS") {
            args.extend(x.split_whitespace().map(String::from));
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
