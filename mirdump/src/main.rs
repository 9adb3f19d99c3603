//! A rustc driver which compiles the crate named by MIRDUMP_CRATE exactly as rustc would, and writes
//! the MIR of every function, closure, constant and promoted of that crate as JSON to MIRDUMP_OUT.
//! The MIR is polymorphic: generic functions are dumped once, for all types.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn js(s: impl Into<String>) -> J {
    J::S(s.into())
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n");
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .map(|x| match x.kind() {
                    GenericArgKind::Lifetime(_) => J::A(vec![js("lt")]),
                    GenericArgKind::Type(t) => self.ty(t),
                    GenericArgKind::Const(c) => self.cst(c),
                    _ => J::A(vec![js("outlives")]),
                })
                .collect(),
        )
    }
    fn cst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::A(vec![js("cparam"), js(p.name.to_string())]),
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(l) => J::A(vec![js("cval"), J::I(l.to_bits_unchecked() as i128)]),
                None => J::A(vec![js("cother"), js(format!("{:?}", c))]),
            },
            _ => J::A(vec![js("cother"), js(with_no_trimmed_paths!(format!("{}", c)))]),
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => js("bool"),
            ty::Char => js("char"),
            ty::Int(i) => js(i.name_str()),
            ty::Uint(i) => js(i.name_str()),
            ty::Float(f) => js(f.name_str()),
            ty::Str => js("str"),
            ty::Never => js("never"),
            ty::Adt(d, a) => J::A(vec![js("adt"), js(path(self.tcx, d.did())), self.args(a)]),
            ty::Array(e, n) => J::A(vec![js("array"), self.ty(*e), self.cst(*n)]),
            ty::Slice(e) => J::A(vec![js("slice"), self.ty(*e)]),
            ty::RawPtr(e, m) => J::A(vec![js("ptr"), J::B(m.is_mut()), self.ty(*e)]),
            ty::Ref(_, e, m) => J::A(vec![js("ref"), J::B(m.is_mut()), self.ty(*e)]),
            ty::Tuple(ts) => J::A(vec![js("tuple"), J::A(ts.iter().map(|x| self.ty(x)).collect())]),
            ty::Param(p) => J::A(vec![js("param"), js(p.name.to_string())]),
            ty::Closure(d, a) => J::A(vec![js("closure"), js(path(self.tcx, *d)), self.args(a)]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                J::A(vec![js("fndef"), js(path(self.tcx, *d)), self.args(a)])
            }
            ty::Alias(..) => {
                // print as  <Self as Trait<..>>::Name  with structured args
                let s = with_no_trimmed_paths!(format!("{}", t));
                let (name, a) = alias_parts(self.tcx, t);
                J::A(vec![js("alias"), js(name), a.map(|a| self.args(a)).unwrap_or(J::A(vec![])), js(s)])
            }
            ty::Dynamic(..) => J::A(vec![js("dyn"), js(with_no_trimmed_paths!(format!("{}", t)))]),
            _ => J::A(vec![js("other"), js(with_no_trimmed_paths!(format!("{}", t)))]),
        }
    }
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![js("deref")]),
                ProjectionElem::Field(f, t) => J::A(vec![js("field"), J::I(f.as_u32() as i128), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![js("index"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![js("cindex"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![js("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, i) => J::A(vec![js("downcast"), J::I(i.as_u32() as i128)]),
                other => J::A(vec![js("otherproj"), js(format!("{:?}", other))]),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(v)])
    }
    fn bytes_of(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> J {
        match self.tcx.global_alloc(id) {
            mir::interpret::GlobalAlloc::Memory(m) => {
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
                J::A(b.iter().map(|x| J::I(*x as i128)).collect())
            }
            _ => J::Null,
        }
    }
    fn constant(&self, c: &Const<'tcx>) -> J {
        let t = self.ty(c.ty());
        match c {
            Const::Val(v, ty) => self.cval(v, *ty, t),
            Const::Ty(_, k) => J::A(vec![js("tyconst"), self.cst(*k), t]),
            Const::Unevaluated(u, ty) => {
                if u.promoted.is_none() {
                    if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                        let j = self.cval(&v, *ty, self.ty(*ty));
                        if !matches!(&j, J::A(x) if matches!(&x[0], J::S(s) if s=="opaque")) {
                            return j;
                        }
                    }
                }
                let (rp, ra) = self.resolve(u.def, u.args);
                J::A(vec![
                    js("uneval"),
                    js(path(self.tcx, u.def)),
                    self.args(u.args),
                    match u.promoted {
                        Some(p) => J::I(p.as_u32() as i128),
                        None => J::Null,
                    },
                    rp,
                    ra,
                    t,
                ])
            }
        }
    }
    fn cval(&self, v: &ConstValue, ty: Ty<'tcx>, t: J) -> J {
        match v {
            ConstValue::ZeroSized => J::A(vec![js("zst"), t, self.callee(ty)]),
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                let val: i128 = if let ty::Int(_) = ty.kind() {
                    i.size().sign_extend(bits) as i128
                } else {
                    bits as i128
                };
                J::A(vec![js("int"), js(format!("{}", val)), t])
            }
            ConstValue::Slice { alloc_id, meta } => {
                let is_str = matches!(ty.kind(), ty::Ref(_, e, _) if e.is_str());
                J::A(vec![
                    js(if is_str { "str" } else { "bytes" }),
                    self.bytes_of(*alloc_id, 0, *meta as usize),
                    t,
                ])
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // e.g. &[u8; N] byte string
                if let ty::Ref(_, e, _) = ty.kind() {
                    if let ty::Array(el, n) = e.kind() {
                        if *el == self.tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                let (prov, off) = p.prov_and_relative_offset();
                                return J::A(vec![
                                    js("bytes"),
                                    self.bytes_of(prov.alloc_id(), off.bytes() as usize, n as usize),
                                    t,
                                ]);
                            }
                        }
                    }
                }
                J::A(vec![js("opaque"), js(format!("{:?}", v)), t])
            }
            _ => J::A(vec![js("opaque"), js(format!("{:?}", v)), t]),
        }
    }
    fn resolve(&self, d: DefId, a: GenericArgsRef<'tcx>) -> (J, J) {
        match ty::Instance::try_resolve(self.tcx, self.env, d, a) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Item(d2) => (js(path(self.tcx, d2)), self.args(i.args)),
                other => (js(format!("#{:?}", other).split('(').next().unwrap().to_string()), self.args(i.args)),
            },
            _ => (J::Null, J::Null),
        }
    }
    /// for FnDef types: [path, args, is_local_body, trait path or null, resolved path or null, resolved args]
    fn callee(&self, t: Ty<'tcx>) -> J {
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let (rp, ra) = self.resolve(*d, a);
            let tr = self.tcx.trait_of_assoc(*d).map(|x| js(path(self.tcx, x))).unwrap_or(J::Null);
            J::O(vec![
                ("path", js(path(self.tcx, *d))),
                ("args", self.args(a)),
                ("trait", tr),
                ("rpath", rp),
                ("rargs", ra),
            ])
        } else {
            J::Null
        }
    }
    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![js("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![js("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![js("const"), self.constant(&c.const_)]),
            other => J::A(vec![js("rtcheck"), js(format!("{:?}", other))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![js("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![js("repeat"), self.operand(o), self.cst(*n)]),
            Rvalue::Ref(_, k, p) => J::A(vec![js("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![js("ref"), J::B(true), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![js("reborrow"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![js("cast"), js(format!("{:?}", k)), self.operand(o), self.ty(*t)])
            }
            Rvalue::BinaryOp(op, b) => {
                J::A(vec![js("bin"), js(format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![js("un"), js(format!("{:?}", op)), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![js("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![js("use"), J::A(vec![js("copy"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => J::A(vec![js("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![js("tuple")]),
                    AggregateKind::Adt(d, v, a, _, _) => J::A(vec![
                        js("adt"),
                        js(path(self.tcx, *d)),
                        J::I(v.as_u32() as i128),
                        self.args(a),
                    ]),
                    AggregateKind::Closure(d, a) => J::A(vec![js("closure"), js(path(self.tcx, *d)), self.args(a)]),
                    AggregateKind::RawPtr(..) => J::A(vec![js("rawptr")]),
                    _ => J::A(vec![js("otheragg")]),
                };
                J::A(vec![js("agg"), kind, J::A(ops.iter().map(|o| self.operand(o)).collect())])
            }
            other => J::A(vec![js("otherrv"), js(format!("{:?}", other))]),
        }
    }
    fn body(&self, b: &Body<'tcx>) -> J {
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => st.push(J::A(vec![js("="), self.place(&x.0), self.rvalue(&x.1)])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        js("setd"),
                        self.place(place),
                        J::I(variant_index.as_u32() as i128),
                    ])),
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![js("intr"), js(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.tcx.sess.source_map().lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![js("goto"), J::I(target.as_u32() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![js("goto"), J::I(real_target.as_u32() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![js("goto"), J::I(real_target.as_u32() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    js("switch"),
                    self.operand(discr),
                    J::A(
                        targets
                            .iter()
                            .map(|(v, b)| J::A(vec![js(format!("{}", v)), J::I(b.as_u32() as i128)]))
                            .collect(),
                    ),
                    J::I(targets.otherwise().as_u32() as i128),
                    self.ty(discr.ty(&b.local_decls, self.tcx)),
                ]),
                TerminatorKind::Return => J::A(vec![js("return")]),
                TerminatorKind::Unreachable => J::A(vec![js("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![js("drop"), self.place(place), J::I(target.as_u32() as i128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&b.local_decls, self.tcx);
                    J::A(vec![
                        js("call"),
                        self.callee(fty),
                        self.operand(func),
                        J::A(args.iter().map(|a| self.operand(&a.node)).collect()),
                        self.place(destination),
                        match target {
                            Some(t) => J::I(t.as_u32() as i128),
                            None => J::Null,
                        },
                        J::I(line as i128),
                        J::A(args.iter().map(|a| self.ty(a.node.ty(&b.local_decls, self.tcx))).collect()),
                        self.ty(destination.ty(&b.local_decls, self.tcx).ty),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                    js("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    js(format!("{:?}", msg).split('(').next().unwrap_or("").to_string()),
                    J::I(target.as_u32() as i128),
                    J::I(line as i128),
                ]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![js("unwind")]),
                other => J::A(vec![js("otherterm"), js(format!("{:?}", other))]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::A(vec![js(v.name.to_string()), self.place(p)]));
            }
        }
        J::O(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(b.local_decls.iter().map(|l| self.ty(l.ty)).collect())),
            ("blocks", J::A(blocks)),
            ("dbg", J::A(dbg)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_u32() as i128)).unwrap_or(J::Null)),
        ])
    }
    fn generics(&self, d: DefId) -> J {
        let mut names = vec![];
        let mut cur = Some(self.tcx.generics_of(d));
        let mut stack = vec![];
        while let Some(g) = cur {
            stack.push(g);
            cur = g.parent.map(|p| self.tcx.generics_of(p));
        }
        for g in stack.iter().rev() {
            for p in &g.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => "lt",
                    ty::GenericParamDefKind::Type { .. } => "ty",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                names.push(J::A(vec![js(p.name.to_string()), js(k)]));
            }
        }
        J::A(names)
    }
}

fn alias_parts<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> (String, Option<GenericArgsRef<'tcx>>) {
    match t.kind() {
        ty::Alias(_, a) => {
            let d: DefId = alias_def_id(a);
            (path(tcx, d), Some(a.args))
        }
        _ => ("?".into(), None),
    }
}
fn alias_def_id<'tcx>(a: &ty::AliasTy<'tcx>) -> DefId {
    match a.kind {
        ty::AliasTyKind::Projection { def_id } => def_id.into(),
        ty::AliasTyKind::Inherent { def_id } => def_id.into(),
        ty::AliasTyKind::Opaque { def_id } => def_id.into(),
        ty::AliasTyKind::Free { def_id } => def_id.into(),
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return rustc_driver::Compilation::Continue;
        }
        let mut fns = vec![];
        let mut consts = vec![];
        let mut promoted = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, env, owner: d };
            let _ = cx.owner;
            let kind = tcx.def_kind(d);
            let p = path(tcx, d);
            let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
            let file = format!("{}", lo.file.name.prefer_local_unconditionally());
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    fns.push((p.clone(), J::O(vec![
                        ("generics", cx.generics(d)),
                        ("kind", js(format!("{:?}", kind))),
                        ("file", js(file)),
                        ("line", J::I(lo.line as i128)),
                        ("body", cx.body(b)),
                    ])));
                    let pr = tcx.promoted_mir(d);
                    for (i, b) in pr.iter_enumerated() {
                        promoted.push((format!("{}#{}", p, i.as_u32()), cx.body(b)));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    consts.push((p.clone(), J::O(vec![("generics", cx.generics(d)), ("body", cx.body(b))])));
                    let pr = tcx.promoted_mir(d);
                    for (i, b) in pr.iter_enumerated() {
                        promoted.push((format!("{}#{}", p, i.as_u32()), cx.body(b)));
                    }
                }
                _ => {}
            }
        }
        // ADTs
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d), owner: d };
                let ad = tcx.adt_def(d);
                let vs = ad
                    .variants()
                    .iter()
                    .map(|v| {
                        J::A(vec![
                            js(v.name.to_string()),
                            J::A(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        let t = tcx.type_of(f.did).instantiate_identity();
                                        let t = t.skip_norm_wip();
                                        J::A(vec![js(f.name.to_string()), cx.ty(t)])
                                    })
                                    .collect(),
                            ),
                        ])
                    })
                    .collect();
                adts.push((path(tcx, d), J::O(vec![("generics", cx.generics(d)), ("variants", J::A(vs))])));
            }
        }
        // impls of traits: trait path, trait args (self first), items
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d), owner: d };
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let items = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| J::A(vec![js(i.opt_name().map(|n| n.to_string()).unwrap_or_default()), js(path(tcx, i.def_id))]))
                    .collect();
                let tys = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| i.is_type())
                    .map(|i| J::A(vec![js(i.opt_name().map(|n| n.to_string()).unwrap_or_default()), cx.ty(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip())]))
                    .collect();
                impls.push(J::O(vec![
                    ("trait", js(path(tcx, tr.def_id))),
                    ("args", cx.args(tr.args)),
                    ("generics", cx.generics(d)),
                    ("items", J::A(items)),
                    ("types", J::A(tys)),
                ]));
            }
        }
        let out = J::O(vec![
            ("fns", J::M(fns)),
            ("consts", J::M(consts)),
            ("promoted", J::M(promoted)),
            ("adts", J::M(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut s = String::new();
        out.w(&mut s);
        let o = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        std::fs::write(o, s).expect("write");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // invoked as a RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
