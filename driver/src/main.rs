//! mirdump: a rustc driver that type-checks a crate exactly like rustc and then writes the
//! type-checked program (MIR of every body with resolved callees, struct and impl tables) as JSON.
//! Used through RUSTC_WORKSPACE_WRAPPER by /verif/sa/frontend.py. It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    /// Small generic std functions (Option/Result combinators and the like) whose bodies are dumped too.
    ext: std::cell::RefCell<(Vec<DefId>, std::collections::HashSet<DefId>)>,
}
const EXT: &[&str] = &[
    "std::option::Option::",
    "std::result::Result::",
    "<std::option::Option as",
    "<std::result::Result as",
    "std::cmp::Ordering::",
    "bool::",
    "std::ops::ControlFlow::",
    "std::convert::identity",
];

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let t = self.tcx;
        format!("{}{}", t.crate_name(d.krate), t.def_path(d).to_string_no_crate_verbose())
    }
    fn ty_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.tcx.def_path_str(a.did()),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::RawPtr(_, ty::Mutability::Mut) => "*mut".into(),
            ty::RawPtr(_, ty::Mutability::Not) => "*const".into(),
            ty::Ref(..) => "&".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::Dynamic(..) => "dyn".into(),
            _ => t.to_string(),
        }
    }
    /// Canonical path: Self type or trait path plus name, without generics.
    fn path(&self, d: DefId) -> String {
        let t = self.tcx;
        match t.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } => {
                let p = t.parent(d);
                let name = t.item_name(d);
                match t.def_kind(p) {
                    DefKind::Impl { of_trait: true } => {
                        let st = t.type_of(p).instantiate_identity().skip_norm_wip();
                        let tr = t.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        format!("<{} as {}>::{}", self.ty_name(st), t.def_path_str(tr.def_id), name)
                    }
                    DefKind::Impl { .. } => {
                        let st = t.type_of(p).instantiate_identity().skip_norm_wip();
                        format!("{}::{}", self.ty_name(st), name)
                    }
                    _ => format!("{}::{}", t.def_path_str(p), name),
                }
            }
            DefKind::Closure => {
                let p = t.parent(d);
                format!("{}::{{closure}}", self.path(p))
            }
            _ => t.def_path_str(d),
        }
    }
    fn span(&self, sp: Span) -> J {
        let sp0 = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let lo0 = self.tcx.sess.source_map().lookup_char_pos(sp0.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        if lo.line == lo0.line {
            s(format!("{}:{}", f, lo.line))
        } else {
            s(format!("{}:{}", f, lo.line))
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    GenericArgKind::Type(t) => Some(self.ty(t)),
                    GenericArgKind::Const(c) => Some(self.tyconst(c)),
                    _ => None,
                })
                .collect(),
        )
    }
    fn tyconst(&self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::O(vec![("k", s("const")), ("v", J::I(v as i128))]);
        }
        J::O(vec![("k", s("cparam")), ("name", s(format!("{}", c)))])
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(i) => J::O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![("k", s("uint")), ("n", s(i.name_str()))]),
            ty::Float(_) => J::O(vec![("k", s("float"))]),
            ty::Adt(a, args) => J::O(vec![
                ("k", s("adt")),
                ("path", s(self.tcx.def_path_str(a.did()))),
                ("enum", J::B(a.is_enum())),
                ("union", J::B(a.is_union())),
                ("args", self.args(args)),
            ]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Array(e, n) => J::O(vec![("k", s("array")), ("t", self.ty(*e)), ("n", self.tyconst(*n))]),
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("t", self.ty(*e))]),
            ty::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("t", self.ty(*e))]),
            ty::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("t", self.ty(*e))]),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                J::O(vec![("k", s("fndef")), ("path", s(self.path(*d))), ("key", s(self.key(*d))), ("args", self.args(args))])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(t.to_string()))]),
            ty::Closure(d, args) => {
                let up = args.as_closure().upvar_tys();
                J::O(vec![
                    ("k", s("closure")),
                    ("key", s(self.key(*d))),
                    ("up", J::A(up.iter().map(|x| self.ty(x)).collect())),
                ])
            }
            ty::Tuple(l) => J::O(vec![("k", s("tuple")), ("ts", J::A(l.iter().map(|x| self.ty(x)).collect()))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.as_str()))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(t.to_string()))]),
            _ => J::O(vec![("k", s("other")), ("s", s(t.to_string()))]),
        }
    }
    /// A resolved callee.
    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let t = self.tcx;
        let mut o = vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("name", s(t.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(self.is_ws(d))),
            ("args", self.args(args)),
        ];
        if let Some(tr) = t.trait_of_assoc(d) {
            o.push(("trait", s(t.def_path_str(tr))));
            if args.len() > 0 {
                if let GenericArgKind::Type(st) = args[0].kind() {
                    o.push(("self", self.ty(st)));
                }
            }
        }
        if matches!(t.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args2 = t.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(t, env, d, args2) {
                let rd = i.def_id();
                self.want(rd);
                o.push(("rkey", s(self.key(rd))));
                o.push(("rpath", s(self.path(rd))));
                o.push(("rlocal", J::B(self.is_ws(rd))));
                o.push(("rargs", self.args(i.args)));
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("rkind", s(kind)));
            }
        }
        J::O(o)
    }
    fn want(&self, d: DefId) {
        if self.is_ws(d) || d.is_local() {
            return;
        }
        let mut x = self.ext.borrow_mut();
        if x.1.contains(&d) {
            return;
        }
        x.1.insert(d);
        let p = self.path(d);
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && EXT.iter().any(|e| p.starts_with(e))
            && self.tcx.is_mir_available(d)
            && self.tcx.intrinsic(d).is_none()
        {
            x.0.push(d);
        }
    }
    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut names = Vec::new();
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(s(p.name.as_str()));
            }
        }
        J::A(names)
    }
    fn is_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        let n = n.as_str();
        n == self.krate || n == "untyped_vec" || n == "arche_tape"
    }
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let t = self.tcx;
        let mut pr = Vec::new();
        for (base, e) in p.iter_projections() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, ty) => {
                    let bt = base.ty(body, t);
                    let name = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match bt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_struct() || a.is_union() => a.non_enum_variant(),
                                None => a.variant(rustc_abi::FIRST_VARIANT),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    J::A(vec![s("field"), J::I(f.index() as i128), s(name), self.ty(ty)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cindex"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    J::A(vec![s("downcast"), J::I(v.index() as i128), s(n.map(|x| x.to_string()).unwrap_or_default())])
                }
                _ => J::A(vec![s("otherproj")]),
            });
        }
        J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(pr)), ("t", self.ty(p.ty(body, t).ty))])
    }
    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(body, *p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.konst(env, &c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rtcheck")]),
        }
    }
    fn konst(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let t = self.tcx;
        let ty = c.ty();
        let mut o = vec![("t", self.ty(ty))];
        if let ty::FnDef(d, args) = ty.kind() {
            o.push(("fn", self.callee(env, *d, args.skip_binder())));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("item", s(self.path(u.def))));
            o.push(("itemkey", s(self.key(u.def))));
            o.push(("itemlocal", J::B(self.is_ws(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.index() as i128)));
            }
            o.push(("itemargs", self.args(u.args)));
        }
        if let Const::Ty(_, tc) = c {
            o.push(("tyconst", self.tyconst(*tc)));
        }
        if ty.is_integral() || ty.is_bool() || ty.is_char() {
            if let Some(si) = c.try_eval_scalar_int(t, env) {
                let v: i128 = if ty.is_signed() { si.to_int(si.size()) } else { si.to_bits(si.size()) as i128 };
                o.push(("v", J::I(v)));
                return J::O(o);
            }
        }
        if let ty::FnPtr(..) = ty.kind() {
            if let Some(sc) = c.try_eval_scalar(t, env) {
                { let p = sc.to_pointer(&t);
                    if let Some(prov) = p.provenance {
                        if let Some(interpret::GlobalAlloc::Function { instance }) = t.try_get_global_alloc(prov.alloc_id()) {
                            o.push(("fnptr", s(self.key(instance.def_id()))));
                        }
                    }
                }
            }
        }
        if let Const::Val(ConstValue::ZeroSized, _) = c {
            o.push(("zst", J::B(true)));
        }
        o.push(("s", s(format!("{}", c))));
        J::O(o)
    }
    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |x: &Operand<'tcx>| self.operand(env, body, x);
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), op(o), self.tyconst(*n)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(body, *p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), J::B(matches!(k, RawPtrKind::Mut)), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), op(o), self.ty(*t), self.ty(o.ty(body, self.tcx))]),
            Rvalue::BinaryOp(b, ab) => J::A(vec![s("bin"), s(format!("{:?}", b)), op(&ab.0), op(&ab.1), self.ty(ab.0.ty(body, self.tcx))]),
            Rvalue::UnaryOp(u, a) => J::A(vec![s("un"), s(format!("{:?}", u)), op(a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, *p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("t", self.ty(*t))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*v);
                        J::O(vec![
                            ("k", s("adt")),
                            ("path", s(self.tcx.def_path_str(*d))),
                            ("enum", J::B(a.is_enum())),
                            ("v", J::I(v.index() as i128)),
                            ("vname", s(var.name.as_str())),
                            ("discr", if a.is_enum() { J::I(a.discriminant_for_variant(self.tcx, *v).val as i128) } else { J::I(0) }),
                            ("fields", J::A(var.fields.iter().map(|f| s(f.name.as_str())).collect())),
                            ("args", self.args(args)),
                            ("union", f.map(|x| J::I(x.index() as i128)).unwrap_or(J::Null)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("key", s(self.key(*d)))]),
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), kk, J::A(ops.iter().map(|o| op(o)).collect())])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(body, *p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty));
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(body, p)]));
            }
        }
        let mut blocks = Vec::new();
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        st.push(J::A(vec![s("assign"), self.place(body, pr.0), self.rvalue(env, body, &pr.1), sp]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setdiscr"), self.place(body, **place), J::I(variant_index.index() as i128), sp]))
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.index() as i128)])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(J::A(vec![s("assume"), self.operand(env, body, o), sp])),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(J::A(vec![
                            s("cno"),
                            self.operand(env, body, &c.src),
                            self.operand(env, body, &c.dst),
                            self.operand(env, body, &c.count),
                            sp,
                        ])),
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.index() as i128),
                _ => J::Null,
            };
            let bi = |b: &BasicBlock| J::I(b.index() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bi(target), sp]),
                TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    s("switch"),
                    self.operand(env, body, discr),
                    J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bi(&b)])).collect()),
                    bi(&targets.otherwise()),
                    sp,
                    self.ty(discr.ty(body, self.tcx)),
                ]),
                TerminatorKind::Return => J::A(vec![s("return"), sp]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable"), sp]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume"), sp]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort"), sp]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    J::A(vec![s("drop"), self.place(body, *place), bi(target), unw(unwind), sp])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => J::A(vec![
                    s("call"),
                    self.operand(env, body, func),
                    J::A(args.iter().map(|a| self.operand(env, body, &a.node)).collect()),
                    self.place(body, *destination),
                    target.as_ref().map(bi).unwrap_or(J::Null),
                    unw(unwind),
                    sp,
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![
                            s("bounds"),
                            self.operand(env, body, len),
                            self.operand(env, body, index),
                        ]),
                        AssertKind::Overflow(b, ..) => J::A(vec![s("overflow"), s(format!("{:?}", b))]),
                        AssertKind::OverflowNeg(_) => J::A(vec![s("overflow"), s("Neg")]),
                        AssertKind::DivisionByZero(_) => J::A(vec![s("divzero")]),
                        AssertKind::RemainderByZero(_) => J::A(vec![s("remzero")]),
                        AssertKind::MisalignedPointerDereference { .. } => J::A(vec![s("misaligned")]),
                        AssertKind::NullPointerDereference => J::A(vec![s("null")]),
                        _ => J::A(vec![s("otherassert")]),
                    };
                    J::A(vec![s("assert"), self.operand(env, body, cond), J::B(*expected), m, bi(target), unw(unwind), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bi(real_target), sp]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bi(real_target), sp]),
                _ => J::A(vec![s("otherterm"), s(format!("{:?}", t.kind)), sp]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("cleanup", J::B(b.is_cleanup))]));
        }
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::I(l.index() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ])
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(x) => x,
            Err(_) => return rustc_driver_impl::Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let cx = Cx { tcx, krate: krate.clone(), ext: Default::default() };
        let ev = tcx.effective_visibilities(());
        rustc_middle::ty::print::with_no_trimmed_paths!({
            rustc_middle::ty::print::with_resolve_crate_name!({
            let mut fns = Vec::new();
            for &ld in tcx.mir_keys(()).iter() {
                let d = ld.to_def_id();
                let kind = tcx.def_kind(d);
                let env = TypingEnv::post_analysis(tcx, d);
                let mut o = vec![
                    ("key", s(cx.key(d))),
                    ("path", s(cx.path(d))),
                    ("kind", s(format!("{:?}", kind))),
                    ("span", cx.span(tcx.def_span(d))),
                    ("reachable", J::B(ev.is_reachable(ld))),
                ];
                let body: &Body<'tcx> = match kind {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                    DefKind::Ctor(..) => continue,
                    _ => tcx.mir_for_ctfe(d),
                };
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    o.push(("inputs", J::A(sig.inputs().iter().map(|t| cx.ty(*t)).collect())));
                    o.push(("output", cx.ty(sig.output())));
o.push(("generics", cx.generics(d)));
                    if let Some(p) = tcx.opt_parent(d) {
                        if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                            o.push(("implkey", s(cx.key(p))));
                            o.push(("selfty", cx.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                                o.push(("trait", s(tcx.def_path_str(tr.def_id))));
                                o.push(("traitargs", cx.args(tr.args)));
                            }
                        }
                    }
                    o.push(("name", s(tcx.item_name(d).as_str())));
                }
                if matches!(kind, DefKind::Closure) {
                    o.push(("parent", s(cx.key(tcx.parent(d)))));
                }
                o.push(("body", cx.body(env, body)));
                let pm = tcx.promoted_mir(d);
                if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    o.push(("promoted", J::A(pm.iter().map(|b| cx.body(env, b)).collect())));
                }
                fns.push(J::O(o));
            }
            // std bodies reached from here
            let mut ext = Vec::new();
            loop {
                let d = match cx.ext.borrow_mut().0.pop() {
                    Some(d) => d,
                    None => break,
                };
                let env = TypingEnv::post_analysis(tcx, d);
                let body: &Body<'tcx> = tcx.optimized_mir(d);
                ext.push(J::O(vec![
                    ("key", s(cx.key(d))),
                    ("path", s(cx.path(d))),
                    ("name", s(tcx.item_name(d).as_str())),
                    ("kind", s("Ext")),
                    ("generics", cx.generics(d)),
                    ("body", cx.body(env, body)),
                ]));
            }
            // ADTs and impls
            let mut adts = Vec::new();
            for id in tcx.hir_crate_items(()).definitions() {
                let d = id.to_def_id();
                match tcx.def_kind(d) {
                    DefKind::Struct | DefKind::Enum | DefKind::Union => {
                        let a = tcx.adt_def(d);
                        let mut vs = Vec::new();
                        for (_vi, v) in a.variants().iter_enumerated() {
                            vs.push(J::O(vec![
                                ("name", s(v.name.as_str())),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::A(vec![
                                                    s(f.name.as_str()),
                                                    cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                                    J::B(f.vis.is_public()),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ]));
                        }
                        adts.push((
                            tcx.def_path_str(d),
                            J::O(vec![
                                ("enum", J::B(a.is_enum())),
                                ("variants", J::A(vs)),
                                ("drop", J::B(a.has_dtor(tcx))),
                                ("reachable", J::B(ev.is_reachable(id))),
                                ("span", cx.span(tcx.def_span(d))),
                            ]),
                        ));
                    }
                    _ => {}
                }
            }
            let mut impls = Vec::new();
            for (tr, list) in tcx.all_local_trait_impls(()).iter() {
                for i in list {
                    let h = tcx.impl_trait_header(i.to_def_id());
                    let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                    let exp = tcx.def_span(i.to_def_id()).from_expansion();
                    let auto = tcx.is_automatically_derived(i.to_def_id());
                    impls.push(J::O(vec![
                        ("key", s(cx.key(i.to_def_id()))),
                        ("trait", s(tcx.def_path_str(*tr))),
                        ("self", cx.ty(st)),
                        ("selfs", s(st.to_string())),
                        ("unsafe", J::B(h.safety.is_unsafe())),
                        ("positive", J::B(matches!(h.polarity, ty::ImplPolarity::Positive))),
                        ("derived", J::B(auto)),
                        ("expansion", J::B(exp)),
                        ("span", cx.span(tcx.def_span(i.to_def_id()))),
                    ]));
                }
            }
            let root = J::O(vec![
                ("crate", s(krate.clone())),
                ("fns", J::A(fns)),
                ("ext", J::A(ext)),
                ("adts", J::M(adts)),
                ("impls", J::A(impls)),
            ]);
            let mut o = String::new();
            root.w(&mut o);
            let f = format!("{}/{}.json", out, krate);
            std::fs::write(&f, o).expect("cannot write dump");
            })
        });
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb));
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
