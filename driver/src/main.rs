//! rustc driver which dumps semantic facts (type-checked MIR with resolved callees,
//! type definitions, evaluated constants) of each workspace crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar, alloc_range};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
}

fn pretty<T>(f: impl FnOnce() -> T) -> T {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(f())))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pretty(|| self.tcx.def_path_str(d))
    }
    fn hash(&self, d: DefId) -> J {
        let h = self.tcx.def_path_hash(d).0;
        let (a, b) = h.split();
        J::s(format!("{:016x}{:016x}", a.as_u64(), b.as_u64()))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tyix.get(&t) {
            return J::i(i);
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tyix.insert(t, i);
        let s = pretty(|| format!("{t}"));
        // structural description: kind, head def, args
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(d, args) => {
                o.push(("k", J::s("adt")));
                o.push(("d", J::s(self.path(d.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", J::s(if m.is_mut() { "refmut" } else { "ref" })));
                let a = self.ty(*x);
                o.push(("a", J::A(vec![a])));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", J::s("ptr")));
                let a = self.ty(*x);
                o.push(("a", J::A(vec![a])));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", J::s(if t.is_slice() { "slice" } else { "array" })));
                let a = self.ty(*x);
                o.push(("a", J::A(vec![a])));
            }
            ty::Tuple(xs) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = xs.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::s(self.path(*d))));
                o.push(("h", self.hash(*d)));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("d", J::s(self.path(*d))));
                o.push(("h", self.hash(*d)));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal() {
                    o.push(("d", J::s(self.path(p.def_id()))));
                }
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Int(_) => o.push(("k", J::s("int"))),
            ty::Uint(_) => o.push(("k", J::s("uint"))),
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.tys[i] = J::O(o);
        J::i(i)
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return (String::new(), 0);
        }
        let l = sm.lookup_char_pos(sp.lo());
        let name = l.file.name.prefer_local_unconditionally().to_string();
        (name, l.line)
    }

    // ------------------------------------------------------------ constants
    fn read_ref_target(&mut self, alloc: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, pointee: Ty<'tcx>, env: TypingEnv<'tcx>, meta: Option<u64>, depth: u32) -> J {
        let tcx = self.tcx;
        match tcx.try_get_global_alloc(alloc) {
            Some(GlobalAlloc::Static(d)) => {
                return J::O(vec![("static", J::s(self.path(d)))]);
            }
            Some(GlobalAlloc::Function { instance }) => {
                return J::O(vec![("fn", J::s(self.path(instance.def_id()))), ("h", self.hash(instance.def_id()))]);
            }
            Some(GlobalAlloc::Memory(m)) => {
                let m = m.inner();
                match pointee.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0);
                        let r = AllocRange { start: off, size: rustc_abi::Size::from_bytes(n) };
                        if let Ok(b) = m.get_bytes_strip_provenance(&tcx, r) {
                            return J::O(vec![("str", J::s(String::from_utf8_lossy(b).into_owned()))]);
                        }
                        J::Null
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0);
                        if e.is_integral() && matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                            let r = AllocRange { start: off, size: rustc_abi::Size::from_bytes(n) };
                            if let Ok(b) = m.get_bytes_strip_provenance(&tcx, r) {
                                return J::O(vec![("bytes", J::A(b.iter().map(|x| J::i(*x)).collect()))]);
                            }
                        }
                        let Ok(l) = tcx.layout_of(env.as_query_input(*e)) else { return J::Null };
                        let mut v = vec![];
                        for i in 0..n {
                            let cv = ConstValue::Indirect { alloc_id: alloc, offset: off + l.size * i };
                            v.push(self.cval(cv, *e, env, depth + 1));
                        }
                        J::O(vec![("arr", J::A(v))])
                    }
                    ty::Dynamic(..) => J::O(vec![("dyn", J::Null)]),
                    _ => self.cval(ConstValue::Indirect { alloc_id: alloc, offset: off }, pointee, env, depth + 1),
                }
            }
            _ => J::Null,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 24 {
            return J::Null;
        }
        // load scalars from memory
        let v = match v {
            ConstValue::Indirect { alloc_id, offset } if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() => {
                let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) else { return J::Null };
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
                match m.inner().read_scalar(&tcx, alloc_range(offset, l.size), false) {
                    Ok(s) => ConstValue::Scalar(s),
                    Err(_) => return J::Null,
                }
            }
            v => v,
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let ConstValue::Scalar(Scalar::Int(si)) = v else { return J::Null };
                match t.kind() {
                    ty::Bool => J::O(vec![("bool", J::B(si.try_to_bool().unwrap_or(false)))]),
                    ty::Char => J::O(vec![("char", J::i(si.to_u32()))]),
                    ty::Int(_) => J::O(vec![("int", J::I(si.to_int(si.size())))]),
                    ty::Uint(_) => J::O(vec![("int", J::I(si.to_uint(si.size()) as i128))]),
                    ty::Float(ty::FloatTy::F32) => J::O(vec![("f32", J::s(format!("{:?}", f32::from_bits(si.to_u32()))))]),
                    ty::Float(ty::FloatTy::F64) => J::O(vec![("f64", J::s(format!("{:?}", f64::from_bits(si.to_u64()))))]),
                    _ => J::Null,
                }
            }
            ty::FnDef(d, _) => J::O(vec![("fn", J::s(self.path(*d))), ("h", self.hash(*d))]),
            ty::FnPtr(..) => match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    self.read_ref_target(prov.alloc_id(), off, t, env, None, depth)
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) else { return J::Null };
                    let ps = tcx.data_layout.pointer_size();
                    match m.inner().read_scalar(&tcx, alloc_range(offset, ps), true) {
                        Ok(Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.into_raw_parts();
                            self.read_ref_target(prov.alloc_id(), off, t, env, None, depth)
                        }
                        _ => J::Null,
                    }
                }
                _ => J::Null,
            },
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match v {
                ConstValue::Slice { alloc_id, meta } => self.read_ref_target(alloc_id, rustc_abi::Size::ZERO, *inner, env, Some(meta), depth),
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    self.read_ref_target(prov.alloc_id(), off, *inner, env, None, depth)
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) else { return J::Null };
                    let m = m.inner();
                    let ps = tcx.data_layout.pointer_size();
                    let Ok(Scalar::Ptr(p, _)) = m.read_scalar(&tcx, alloc_range(offset, ps), true) else { return J::Null };
                    let (prov, off) = p.into_raw_parts();
                    let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                        match m.read_scalar(&tcx, alloc_range(offset + ps, ps), false) {
                            Ok(Scalar::Int(n)) => Some(n.to_uint(n.size()) as u64),
                            _ => return J::Null,
                        }
                    } else {
                        None
                    };
                    self.read_ref_target(prov.alloc_id(), off, *inner, env, meta, depth)
                }
                _ => J::Null,
            },
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if t.has_param() {
                    return J::Null;
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return J::Null;
                    }
                }
                let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) else { return J::Null };
                let fields: Vec<J> = d.fields.iter().map(|(cv, ct)| self.cval(*cv, *ct, env, depth + 1)).collect();
                match t.kind() {
                    ty::Adt(def, _) => {
                        let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                        let vd = def.variant(vi);
                        J::O(vec![
                            ("adt", J::s(self.path(def.did()))),
                            ("v", J::s(vd.name.to_string())),
                            ("n", J::A(vd.fields.iter().map(|f| J::s(f.name.to_string())).collect())),
                            ("f", J::A(fields)),
                        ])
                    }
                    ty::Tuple(_) => J::O(vec![("tup", J::A(fields))]),
                    _ => J::O(vec![("arr", J::A(fields))]),
                }
            }
            _ => J::Null,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("t", self.ty(t))];
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let d = &d;
            o.push(("fn", J::s(self.path(*d))));
            o.push(("h", self.hash(*d)));
            let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
            o.push(("ga", J::A(a)));
            if let rustc_hir::def::DefKind::Ctor(_, rustc_hir::def::CtorKind::Fn) = tcx.def_kind(*d) {
                let sig = tcx.fn_sig(*d).instantiate(tcx, args).skip_binder();
                if let ty::Adt(adt, _) = sig.output().kind() {
                    let v = adt.variant_with_ctor_id(*d);
                    o.push((
                        "ctor",
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.path(adt.did())),
                            J::s(v.name.to_string()),
                            J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ]),
                    ));
                }
            }
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.as_usize())));
                o.push(("of", self.hash(u.def)));
            } else {
                o.push(("item", J::s(self.path(u.def))));
            }
        }
        if !c.const_.has_param() {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let j = self.cval(v, t, env, 0);
                o.push(("val", j));
            }
        }
        J::O(o)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::i(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        name = def.variant(vi).fields[f].name.to_string();
                        owner = self.path(def.did());
                    } else if let ty::Closure(d, _) = pt.ty.kind() {
                        if let Some(l) = d.as_local() {
                            if let Some(c) = tcx.closure_captures(l).get(f.as_usize()) {
                                name = format!("^{}", c.to_symbol());
                            }
                        }
                        owner = "closure".into();
                    }
                    J::A(vec![J::s("f"), J::s(name), J::i(f.as_usize()), J::s(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![J::s("ci"), J::i(offset), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("sub"), J::i(from), J::i(to), J::B(from_end)]),
                ProjectionElem::Downcast(name, vi) => {
                    let n = name.map(|n| n.to_string()).unwrap_or_else(|| format!("{}", vi.as_usize()));
                    J::A(vec![J::s("v"), J::s(n), J::i(vi.as_usize())])
                }
                _ => J::s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(body, *p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(c, env)]),
            _ => J::A(vec![J::s("rt")]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(body, o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = pretty(|| format!("{n}"));
                J::A(vec![J::s("repeat"), self.operand(body, o, env), J::s(n)])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                J::s(match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                }),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("rawptr"), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{k:?}");
                J::A(vec![J::s("cast"), J::s(kk), self.operand(body, o, env), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                J::A(vec![J::s("bin"), J::s(format!("{b:?}")), self.operand(body, &ops.0, env), self.operand(body, &ops.1, env)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::s(format!("{u:?}")), self.operand(body, o, env)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::A(vec![J::s("discr"), self.place(body, *p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.path(*d)),
                            J::s(v.name.to_string()),
                            J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), self.hash(*d), J::s(self.path(*d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                J::A(vec![J::s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, *p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("ref"), J::s("mut"), self.place(body, *p)]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(body, o, env)]),
        }
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::i(b.as_usize()),
            _ => J::Null,
        }
    }
    fn callee(&mut self, func: &Operand<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![];
        if let Some((d, args)) = func.const_fn_def() {
            o.push(("fn", J::s(self.path(d))));
            o.push(("h", self.hash(d)));
            let ga: Vec<J> = args.types().map(|x| self.ty(x)).collect();
            o.push(("ga", J::A(ga)));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", J::s(self.path(tr))));
            }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rfn", J::s(self.path(rd))));
                    o.push(("rh", self.hash(rd)));
                }
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    o.push(("virtual", J::B(true)));
                }
            } else if tcx.trait_of_assoc(d).is_some() {
                o.push(("unresolved", J::B(true)));
            }
        }
        o
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let (_, line) = self.loc(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", J::i(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                o.push(("d", self.operand(body, discr, env)));
                let dt = discr.ty(body, self.tcx);
                o.push(("ty", self.ty(dt)));
                let size = self.tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok();
                let signed = dt.is_signed();
                let v: Vec<J> = targets
                    .iter()
                    .map(|(val, b)| {
                        let val: i128 = match size {
                            Some(s) if signed => s.sign_extend(val),
                            _ => val as i128,
                        };
                        J::A(vec![J::I(val), J::i(b.as_usize())])
                    })
                    .collect();
                o.push(("v", J::A(v)));
                o.push(("o", J::i(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("resume"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                o.push(("k", J::s("drop")));
                o.push(("p", self.place(body, *place)));
                let pt = place.ty(body, self.tcx).ty;
                o.push(("ty", self.ty(pt)));
                o.push(("t", J::i(target.as_usize())));
                o.push(("u", Self::unwind(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                o.push(("k", J::s("call")));
                let c = self.callee(func, env);
                if c.is_empty() {
                    o.push(("fop", self.operand(body, func, env)));
                }
                o.extend(c);
                let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                o.push(("a", J::A(a)));
                o.push(("dst", self.place(body, *destination)));
                o.push(("t", target.map(|t| J::i(t.as_usize())).unwrap_or(J::Null)));
                o.push(("u", Self::unwind(unwind)));
                if fn_span.from_expansion() {
                    if let Some(m) = fn_span.ctxt().outer_expn_data().macro_def_id {
                        o.push(("mac", J::s(self.path(m))));
                    }
                }
            }
            TerminatorKind::TailCall { func, args, .. } => {
                o.push(("k", J::s("tailcall")));
                let c = self.callee(func, env);
                o.extend(c);
                let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                o.push(("a", J::A(a)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                o.push(("k", J::s("assert")));
                o.push(("c", self.operand(body, cond, env)));
                o.push(("e", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        o.push(("mo", J::A(vec![self.operand(body, len, env), self.operand(body, index, env)])));
                        "bounds".to_string()
                    }
                    AssertKind::Overflow(b, x, y) => {
                        o.push(("mo", J::A(vec![self.operand(body, x, env), self.operand(body, y, env)])));
                        format!("overflow:{b:?}")
                    }
                    AssertKind::OverflowNeg(_) => "overflowneg".into(),
                    AssertKind::DivisionByZero(_) => "div0".into(),
                    AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                o.push(("m", J::s(m)));
                o.push(("t", J::i(target.as_usize())));
                o.push(("u", Self::unwind(unwind)));
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", J::i(real_target.as_usize())));
            }
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("ln", J::i(line)));
        J::O(o)
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut o = vec![];
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("argc", J::i(body.arg_count)));
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(body, p);
                names.push(J::A(vec![J::s(v.name.to_string()), pj]));
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let (_, ln) = self.loc(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, &b.1, env);
                        st.push(J::A(vec![J::s("="), p, r, J::i(ln)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        st.push(J::A(vec![J::s("setd"), p, J::i(variant_index.as_usize()), J::i(ln)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::i(l.as_usize())])),
                    _ => {}
                }
            }
            let t = self.term(body, bb.terminator(), env);
            let mut b = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup {
                b.push(("cl", J::B(true)));
            }
            blocks.push(J::O(b));
        }
        o.push(("blocks", J::A(blocks)));
        o
    }
    fn owner(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let (k, is_fn) = match kind {
            DefKind::Fn => ("fn", true),
            DefKind::AssocFn => ("fn", true),
            DefKind::Closure => ("closure", true),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", false),
            DefKind::Static { .. } => ("static", false),
            DefKind::AnonConst => return None,
            DefKind::Ctor(..) => return None,
            _ => return None,
        };
        let mut o = vec![("path", J::s(self.path(did))), ("h", self.hash(did)), ("k", J::s(k))];
        o.push(("name", J::s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        let (file, line) = self.loc(tcx.def_span(did));
        o.push(("file", J::s(file)));
        o.push(("line", J::i(line)));
        if tcx.def_span(did).from_expansion() {
            o.push(("mac", J::B(true)));
        }
        if k == "closure" {
            o.push(("parent", self.hash(tcx.typeck_root_def_id(did))));
            o.push(("lparent", self.hash(tcx.parent(did))));
        } else {
            o.push(("vis", J::B(tcx.visibility(did).is_public())));
            let parent = tcx.parent(did);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self", self.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(self.path(tr.def_id))));
                    o.push(("traitref", J::s(pretty(|| format!("{tr}")))));
                    if let Some(ai) = tcx.opt_associated_item(did) {
                        if let Some(ti) = ai.trait_item_def_id() {
                            o.push(("timpl", self.hash(ti)));
                        }
                    }
                }
            } else if matches!(tcx.def_kind(parent), DefKind::Trait { .. }) {
                o.push(("intrait", J::s(self.path(parent))));
            }
        }
        let env = TypingEnv::post_analysis(tcx, did);
        if is_fn {
            if !tcx.is_mir_available(did) {
                return Some(J::O(o));
            }
            let b = tcx.optimized_mir(did);
            o.extend(self.body(b, env));
        } else {
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                o.push(("generic", J::B(true)));
            } else {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("ty", self.ty(t)));
                if matches!(kind, DefKind::Static { .. }) {
                    if !tcx.is_thread_local_static(did) {
                        if let Ok(a) = tcx.eval_static_initializer(did) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let j = self.cval(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, env, 0);
                            o.push(("val", j));
                        }
                    }
                } else if let Ok(v) = tcx.const_eval_poly(did) {
                    let j = self.cval(v, t, env, 0);
                    o.push(("val", j));
                }
            }
            if !matches!(kind, DefKind::AssocConst { .. }) || tcx.is_mir_available(did) {
                let b = tcx.mir_for_ctfe(did);
                o.extend(self.body(b, env));
            }
        }
        // promoteds
        let mut pr = vec![];
        if tcx.is_mir_available(did) || !is_fn {
            if !matches!(kind, DefKind::AssocConst { .. }) || tcx.is_mir_available(did) {
                for p in tcx.promoted_mir(did).iter() {
                    pr.push(J::O(self.body(p, env)));
                }
            }
        }
        o.push(("promoted", J::A(pr)));
        Some(J::O(o))
    }
    fn adts(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        let ids: Vec<LocalDefId> = tcx.iter_local_def_id().collect();
        for d in ids {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let def = tcx.adt_def(did);
            let (file, line) = self.loc(tcx.def_span(did));
            let mut vs = vec![];
            let discrs: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val as i128).collect() } else { vec![0] };
            for (i, va) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in &va.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let tj = self.ty(t);
                    fs.push(J::O(vec![("n", J::s(f.name.to_string())), ("t", tj), ("pub", J::B(f.vis.is_public()))]));
                }
                vs.push(J::O(vec![("n", J::s(va.name.to_string())), ("d", J::I(discrs[i])), ("f", J::A(fs))]));
            }
            v.push(J::O(vec![
                ("path", J::s(self.path(did))),
                ("enum", J::B(def.is_enum())),
                ("file", J::s(file)),
                ("line", J::i(line)),
                ("variants", J::A(vs)),
            ]));
        }
        J::A(v)
    }
    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        let ids: Vec<LocalDefId> = tcx.iter_local_def_id().collect();
        for d in ids {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
                continue;
            }
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let stj = self.ty(st);
            let mut o = vec![("self", stj)];
            if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(self.path(tr.def_id))));
                o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                let methods: Vec<J> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                    .map(|a| J::s(a.name().to_string()))
                    .collect();
                o.push(("methods", J::A(methods)));
            }
            v.push(J::O(o));
        }
        J::A(v)
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = &self.out else { return Compilation::Continue };
        let mut cx = Cx { tcx, tys: vec![], tyix: HashMap::new() };
        let mut bodies = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        for d in owners {
            if let Some(j) = cx.owner(d) {
                bodies.push(j);
            }
        }
        let adts = cx.adts();
        let impls = cx.impls();
        let tys = std::mem::take(&mut cx.tys);
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let j = J::O(vec![("crate", J::s(name)), ("pkg", J::s(std::env::var("CARGO_PKG_NAME").unwrap_or_default())), ("types", J::A(tys)), ("adts", adts), ("impls", impls), ("bodies", J::A(bodies))]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(out, s).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    // invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dir = std::env::var("SPACEFACTS_OUT").unwrap_or_default();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let name = get("--crate-name");
    let ty = args.iter().position(|a| a == "--crate-type").and_then(|i| args.get(i + 1)).cloned();
    let is_build_script = name.as_deref().is_some_and(|n| n.starts_with("build_script"));
    let query = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    let out = match (&name, dir.is_empty() || query || is_build_script) {
        (Some(n), false) => {
            let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
            let kind = ty.unwrap_or_else(|| "bin".into());
            Some(format!("{dir}/{pkg}.{n}.{kind}.json"))
        }
        _ => None,
    };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        args.push("-Coverflow-checks=on".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
