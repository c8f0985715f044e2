use crate::json::J;
use crate::{ja, jo};
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt,
    TypingEnv,
};
use rustc_span::{Span, Symbol};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<String, ()>,
    te: TypingEnv<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

pub fn derive_name(tcx: TyCtxt<'_>, sp: Span) -> Option<String> {
    let _ = tcx;
    let mut s = sp;
    while s.from_expansion() {
        let e = s.ctxt().outer_expn_data();
        if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, n) = e.kind {
            return Some(n.to_string());
        }
        s = e.call_site;
    }
    None
}

/// name of the crate whose (non-derive) macro produced this span, outermost
fn macro_of(tcx: TyCtxt<'_>, sp: Span) -> Option<String> {
    let mut s = sp;
    let mut r = None;
    while s.from_expansion() {
        let e = s.ctxt().outer_expn_data();
        if let (rustc_span::ExpnKind::Macro(_, n), Some(d)) = (e.kind, e.macro_def_id) {
            r = Some(format!("{}::{}", tcx.crate_name(d.krate), n));
        }
        s = e.call_site;
    }
    r
}

fn loc(tcx: TyCtxt<'_>, sp: Span) -> (String, usize) {
    let s = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = format!("{}", l.file.name.prefer_local_unconditionally());
    (f, l.line)
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.tyids.insert(t, id);
        let tcx = self.tcx;
        let j = match *t.kind() {
            TyKind::Bool => jo! {"k":"bool"},
            TyKind::Char => jo! {"k":"char"},
            TyKind::Str => jo! {"k":"str"},
            TyKind::Never => jo! {"k":"never"},
            TyKind::Int(i) => jo! {"k":"int","n":i.name_str()},
            TyKind::Uint(i) => jo! {"k":"int","n":i.name_str()},
            TyKind::Float(i) => jo! {"k":"float","n":i.name_str()},
            TyKind::Adt(d, args) => {
                let a = self.args(args);
                jo! {"k":"adt","d":path(tcx,d.did()),"a":a,"l":d.did().is_local()}
            }
            TyKind::Ref(_, i, m) => { let x = self.ty(i); jo! {"k":"ref","t":x,"m":m.is_mut()} }
            TyKind::RawPtr(i, m) => { let x = self.ty(i); jo! {"k":"ptr","t":x,"m":m.is_mut()} }
            TyKind::Slice(i) => { let x = self.ty(i); jo! {"k":"slice","t":x} }
            TyKind::Array(i, n) => {
                let x = self.ty(i);
                jo! {"k":"array","t":x,"n":n.try_to_target_usize(tcx).map(|x| x as usize)}
            }
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| J::from(self.ty(x))).collect();
                jo! {"k":"tuple","a":v}
            }
            TyKind::FnDef(d, _) => jo! {"k":"fndef","d":path(tcx,d)},
            TyKind::FnPtr(..) => jo! {"k":"fnptr"},
            TyKind::Closure(d, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<J> = up.into_iter().map(|x| J::from(self.ty(x))).collect();
                jo! {"k":"closure","d":path(tcx,d),"up":v}
            }
            TyKind::Coroutine(d, args) => {
                let up: Vec<Ty<'tcx>> = args.as_coroutine().upvar_tys().iter().collect();
                let v: Vec<J> = up.into_iter().map(|x| J::from(self.ty(x))).collect();
                jo! {"k":"coroutine","d":path(tcx,d),"up":v}
            }
            TyKind::Dynamic(preds, _) => {
                let s = preds.principal_def_id().map(|d| path(tcx, d));
                jo! {"k":"dyn","d":s}
            }
            TyKind::Param(p) => jo! {"k":"param","n":p.name.as_str()},
            _ => jo! {"k":"other","n":with_no_trimmed_paths!(format!("{:?}", t))},
        };
        self.tys[id] = j;
        id
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> Vec<J> {
        let v: Vec<Ty<'tcx>> = a.types().collect();
        v.into_iter().map(|t| J::from(self.ty(t))).collect()
    }

    fn key(&self, i: &Instance<'tcx>) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        match i.def {
            InstanceKind::Item(_) => p,
            _ => format!("{} [{:?}]", p, std::mem::discriminant(&i.def)),
        }
    }

    fn inline_external(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate);
        if c.as_str() != "core" {
            return false;
        }
        let dp = tcx.def_path(d);
        let Some(first) = dp.data.first() else { return false };
        let Some(n) = first.data.get_opt_name() else { return false };
        matches!(n.as_str(), "option" | "result" | "bool" | "convert" | "ops" | "cmp")
    }

    fn enqueue(&mut self, i: Instance<'tcx>, te: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        if d.is_local() {
            if let Some(n) = derive_name(tcx, tcx.def_span(d)) {
                if matches!(n.as_str(), "Serialize" | "Deserialize" | "Debug" | "Clone" | "PartialEq") {
                    return None;
                }
            }
            crate::stashed(tcx, d.expect_local())?;
        } else {
            if !self.inline_external(d) || !tcx.is_mir_available(d) {
                return None;
            }
        }
        let k = self.key(&i);
        if !self.seen.contains_key(&k) {
            self.seen.insert(k.clone(), ());
            self.queue.push_back((i, te));
        }
        Some(k)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("p", path(tcx, d).into())];
        let a = self.args(args);
        o.push(("a", a.into()));
        o.push(("c", tcx.crate_name(d.krate).as_str().into()));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let (adt, var) = match of {
                CtorOf::Struct => (tcx.parent(d), 0usize),
                CtorOf::Variant => {
                    let v = tcx.parent(d);
                    let adt = tcx.parent(v);
                    let idx = tcx.adt_def(adt).variant_index_with_id(v).as_usize();
                    (adt, idx)
                }
            };
            o.push(("ctor", ja![path(tcx, adt), var]));
            return J::Obj(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("tr", path(tcx, t).into()));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let res = Instance::try_resolve(tcx, te, d, args);
        match res {
            Ok(Some(i)) => {
                let rd = i.def_id();
                o.push(("r", path(tcx, rd).into()));
                o.push(("rc", tcx.crate_name(rd.krate).as_str().into()));
                let rk = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("rk", rk.into()));
                if i.def.requires_caller_location(tcx) {
                    o.push(("tc", true.into()));
                }
                if rd.is_local() {
                    o.push(("l", true.into()));
                    if let Some(n) = derive_name(tcx, tcx.def_span(rd)) {
                        o.push(("dv", n.into()));
                    }
                }
                if let Some(k) = self.enqueue(i, te) {
                    o.push(("k", k.into()));
                }
            }
            _ => {}
        }
        J::Obj(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        let wrap = |k: &'static str, j: J| J::Obj(vec![("t", tid.into()), (k, j)]);
        if depth > 12 {
            return wrap("o", "deep".into());
        }
        match *t.kind() {
            TyKind::FnDef(d, args) => {
                let args = args.skip_binder();
                let c = self.callee(d, args, te);
                return wrap("f", c);
            }
            TyKind::Bool => {
                if let Some(s) = v.try_to_scalar_int() {
                    return wrap("i", J::Int(s.to_bits(s.size()) as i128));
                }
            }
            TyKind::Char | TyKind::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return wrap("i", J::Int(s.to_bits(s.size()) as i128));
                }
            }
            TyKind::Int(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return wrap("i", J::Int(s.to_int(s.size())));
                }
            }
            TyKind::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return wrap("fl", J::Str(format!("{:x}", s.to_bits(s.size()))));
                }
            }
            TyKind::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance, .. } = tcx.global_alloc(prov.alloc_id()) {
                        let mut id = instance.def_id();
                        if let Some(a) = instance.args.types().next() {
                            if let TyKind::Closure(c, _) = a.kind() {
                                id = *c;
                            }
                        }
                        let n = path(tcx, id);
                        return wrap("fnp", n.into());
                    }
                }
            }
            TyKind::Ref(_, inner, _) => match *inner.kind() {
                TyKind::Str => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return wrap("s", J::Str(String::from_utf8_lossy(b).into_owned()));
                    }
                }
                TyKind::Slice(el) if el == tcx.types.u8 => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return wrap("ref", jo! {"bytes": b.iter().map(|x| J::Int(*x as i128)).collect::<Vec<_>>()});
                    }
                }
                TyKind::Dynamic(..) => {}
                _ => {
                    if let Some(j) = self.deref_const(v, inner, te, depth) {
                        return wrap("ref", j);
                    }
                }
            },
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let TyKind::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return wrap("o", format!("{:?}", t).into());
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> =
                        dc.fields.iter().map(|(v, t)| self.cval(*v, *t, te, depth + 1)).collect();
                    return match t.kind() {
                        TyKind::Adt(..) => wrap("adt", ja![dc.variant.map(|v| v.as_usize()).unwrap_or(0), fs]),
                        TyKind::Tuple(_) => wrap("tup", fs.into()),
                        _ => wrap("arr", fs.into()),
                    };
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return wrap("z", J::Bool(true));
        }
        wrap("o", with_no_trimmed_paths!(format!("{:?}", t)).into())
    }

    fn deref_const(&mut self, v: ConstValue, inner: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let psz = tcx.data_layout.pointer_size();
        let is_slice = matches!(inner.kind(), TyKind::Slice(_));
        // pointer (+ length)
        let (aid, off, len) = match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off, None)
            }
            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let s = a.inner().read_scalar(&tcx, alloc_range(offset, psz), true).ok()?;
                let Scalar::Ptr(p, _) = s else { return None };
                let (prov, off) = p.into_raw_parts();
                let len = if is_slice {
                    let l = a.inner().read_scalar(&tcx, alloc_range(offset + psz, psz), false).ok()?;
                    Some(l.to_target_usize(&tcx).discard_err()?)
                } else {
                    None
                };
                (prov.alloc_id(), off, len)
            }
            _ => return None,
        };
        let aid = match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(_) => aid,
            GlobalAlloc::Static(d) => {
                let st = path(tcx, d);
                let freeze = inner.is_freeze(tcx, te) && !tcx.is_mutable_static(d);
                if d.is_local() && freeze {
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        tcx.reserve_and_set_memory_alloc(a)
                    } else {
                        return Some(jo! {"static": st});
                    }
                } else {
                    return Some(jo! {"static": st});
                }
            }
            _ => return None,
        };
        if let TyKind::Slice(el) = *inner.kind() {
            let n = len?;
            let lay = tcx.layout_of(te.as_query_input(el)).ok()?;
            let mut out = vec![];
            for i in 0..n {
                let cv = if lay.size.bytes() == 0 {
                    ConstValue::ZeroSized
                } else {
                    self.mk_val(aid, off + lay.size * i, el, te)?
                };
                out.push(self.cval(cv, el, te, depth + 1));
            }
            let tid = self.ty(inner);
            return Some(J::Obj(vec![("t", tid.into()), ("arr", out.into())]));
        }
        if !inner.is_sized(tcx, te) {
            return None;
        }
        let cv = self.mk_val(aid, off, inner, te)?;
        Some(self.cval(cv, inner, te, depth + 1))
    }

    /// a ConstValue for the value of type t stored at aid+off
    fn mk_val(&mut self, aid: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, te: TypingEnv<'tcx>) -> Option<ConstValue> {
        let tcx = self.tcx;
        let lay = tcx.layout_of(te.as_query_input(t)).ok()?;
        if lay.is_zst() {
            return Some(ConstValue::ZeroSized);
        }
        let prim = match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => true,
            TyKind::Ref(_, i, _) => i.is_sized(tcx, te),
            _ => false,
        };
        if prim {
            let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) else { return None };
            let s = a
                .inner()
                .read_scalar(&tcx, alloc_range(off, lay.size), t.is_ref())
                .ok()?;
            return Some(ConstValue::Scalar(s));
        }
        Some(ConstValue::Indirect { alloc_id: aid, offset: off })
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, sp: Span) -> J {
        let t = c.ty();
        if let TyKind::FnDef(..) = t.kind() {
            return self.cval(ConstValue::ZeroSized, t, te, 0);
        }
        let mut extra = None;
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                extra = Some(path(self.tcx, u.def));
            }
        }
        if t.has_param() || c.has_param() {
            let tid = self.ty(t);
            return jo! {"t": tid, "o": format!("{:?}", c)};
        }
        let j = match c.eval(self.tcx, te, sp) {
            Ok(v) => self.cval(v, t, te, 0),
            Err(_) => { let tid = self.ty(t); jo! {"t": tid, "o": format!("{:?}", c)} }
        };
        match (j, extra) {
            (J::Obj(mut o), Some(p)) => {
                o.push(("n", p.into()));
                J::Obj(o)
            }
            (j, _) => j,
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr: Vec<J> = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => ja!["*"],
                ProjectionElem::Field(f, t) => { let t = self.ty(t); ja!["f", f.as_usize(), t] }
                ProjectionElem::Index(l) => ja!["i", l.as_usize()],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => ja!["c", offset as usize, min_length as usize, from_end],
                ProjectionElem::Subslice { from, to, from_end } => ja!["s", from as usize, to as usize, from_end],
                ProjectionElem::Downcast(_, v) => ja!["v", v.as_usize()],
                _ => ja!["o"],
            });
        }
        ja![p.local.as_usize(), pr]
    }
    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); ja!["c", p] }
            Operand::Move(p) => { let p = self.place(p); ja!["m", p] }
            Operand::Constant(c) => { let k = self.constant(&c.const_, te, c.span); ja!["k", k] }
            Operand::RuntimeChecks(_) => ja!["rc"],
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o, te); ja!["use", o] }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, te);
                ja!["rep", o, n.try_to_target_usize(self.tcx).map(|x| x as usize)]
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let p = self.place(p);
                ja!["ref", m, p]
            }
            Rvalue::ThreadLocalRef(d) => ja!["tls", path(self.tcx, *d)],
            Rvalue::RawPtr(_, p) => { let p = self.place(p); ja!["ref", true, p, "raw"] }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); ja!["ref", m.is_mut(), p] }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, te);
                let t = self.ty(*t);
                ja!["cast", format!("{:?}", k), o, t]
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, te);
                let b = self.operand(&ab.1, te);
                ja!["bin", format!("{:?}", op), a, b]
            }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a, te); ja!["un", format!("{:?}", op), a] }
            Rvalue::Discriminant(p) => { let p = self.place(p); ja!["discr", p] }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); ja!["use", ja!["c", p]] }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.operand(o, te); ja!["use", o] }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, te)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => ja!["array"],
                    AggregateKind::Tuple => ja!["tuple"],
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let a = self.args(args);
                        ja!["adt", path(self.tcx, *d), v.as_usize(), a, f.map(|f| f.as_usize())]
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let i = Instance::new_raw(*d, args);
                        let k = self.enqueue(i, te);
                        ja!["closure", path(self.tcx, *d), k]
                    }
                    AggregateKind::Coroutine(d, args) | AggregateKind::CoroutineClosure(d, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let i = Instance::new_raw(*d, args);
                        let k = self.enqueue(i, te);
                        ja!["coroutine", path(self.tcx, *d), k]
                    }
                    AggregateKind::RawPtr(..) => ja!["rawptr"],
                };
                ja!["agg", kj, ops]
            }
        }
    }

    fn body(&mut self, i: Instance<'tcx>, te: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let d = i.def_id();
        let raw: Body<'tcx> = if d.is_local() {
            crate::stashed(tcx, d.expect_local())?
        } else {
            tcx.instance_mir(i.def).clone()
        };
        let body = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, raw)) {
            Ok(b) => b,
            Err(_) => return None,
        };
        let (file, line) = loc(tcx, tcx.def_span(d));
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(ja![v.name.as_str(), pj, v.argument_index.map(|x| x as u32)]);
            }
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| J::from(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                let (_, line) = loc(tcx, s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, te);
                        ss.push(ja!["=", p, r, line]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(ja!["sd", p, variant_index.as_usize(), line]);
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (_, tl) = loc(tcx, term.source_info.span);
            let mac = macro_of(tcx, term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => ja!["goto", target.as_usize()],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let o = self.operand(discr, te);
                    let ts: Vec<J> = targets.iter().map(|(v, b)| ja![J::Int(v as i128), b.as_usize()]).collect();
                    ja!["switch", o, dt, ts, targets.otherwise().as_usize(), tl]
                }
                TerminatorKind::Return | TerminatorKind::CoroutineDrop => ja!["ret"],
                TerminatorKind::Unreachable => ja!["unreach"],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => ja!["unwind"],
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    ja!["drop", p, target.as_usize()]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, te);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    let dst = self.place(destination);
                    ja!["call", f, a, dst, target.map(|t| t.as_usize()), tl, mac]
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, te);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    ja!["tailcall", f, a, tl]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, te);
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, te);
                            let x = self.operand(index, te);
                            ("bounds".to_string(), vec![l, x])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(a, te);
                            let b = self.operand(b, te);
                            (format!("overflow:{:?}", op), vec![a, b])
                        }
                        o => {
                            let s = format!("{:?}", o);
                            (s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), vec![])
                        }
                    };
                    ja!["assert", c, *expected, k, ops, target.as_usize(), tl, mac]
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, te);
                    let ra = self.place(resume_arg);
                    ja!["yield", v, ra, resume.as_usize(), tl]
                }
                TerminatorKind::FalseEdge { real_target, .. } => ja!["goto", real_target.as_usize()],
                TerminatorKind::FalseUnwind { real_target, .. } => ja!["goto", real_target.as_usize()],
                TerminatorKind::InlineAsm { .. } => ja!["asm"],
            };
            blocks.push(jo! {"s": ss, "t": t});
        }
        let dk = format!("{:?}", tcx.def_kind(d));
        Some(jo! {
            "path": path(tcx, d), "crate": tcx.crate_name(d.krate).as_str(), "file": file, "line": line,
            "dk": dk, "argc": body.arg_count, "locals": locals, "names": names, "blocks": blocks,
            "spread": body.spread_arg.map(|l| l.as_usize()),
            "mac": macro_of(tcx, tcx.def_span(d)),
            "parent": tcx.opt_parent(d).map(|p| path(tcx, p)),
        })
    }
}

fn attrs_of(tcx: TyCtxt<'_>, d: LocalDefId) -> Vec<J> {
    let id = tcx.local_def_id_to_hir_id(d);
    let mut v = vec![];
    for a in tcx.hir_attrs(id) {
        let s = rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a);
        v.push(J::Str(s.trim().to_string()));
    }
    v
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let (f, l) = loc(self.tcx, b.span);
            let owner = path(self.tcx, b.hir_id.owner.to_def_id());
            self.out.push(jo! {"file": f, "line": l, "mac": macro_of(self.tcx, b.span), "in": owner});
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let te = TypingEnv::fully_monomorphized();
    let mut cx = Cx { tcx, tys: vec![], tyids: HashMap::new(), queue: VecDeque::new(), seen: HashMap::new(), te };
    let ev = tcx.effective_visibilities(());
    let mut adts = vec![];
    let mut impls = vec![];
    let mut fns = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut traits = vec![];
    let mut aliases = vec![];
    let mut reexports = vec![];

    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let mut roots: Vec<(Instance<'tcx>, TypingEnv<'tcx>)> = vec![];
    let mut lim = HashSet::new();
    for d in tcx.hir_crate_items(()).definitions() {
        if !lim.insert(d) {
            continue;
        }
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let sp = tcx.def_span(did);
        let (file, line) = loc(tcx, sp);
        let mac = macro_of(tcx, sp);
        let dname = derive_name(tcx, sp);
        if dname.is_some() && !matches!(kind, DefKind::Impl { .. }) {
            continue;
        }
        // items nested in derived impls (serde's __Field, __Visitor ...)
        {
            let mut p = tcx.opt_parent(did);
            let mut skip = false;
            while let Some(x) = p {
                if x.is_local() && derive_name(tcx, tcx.def_span(x)).is_some() { skip = true; break; }
                p = tcx.opt_parent(x);
            }
            // ... but the derived serde impls themselves are facts
            if skip && !(matches!(kind, DefKind::Impl { of_trait: true })
                && matches!(dname.as_deref(), Some("Serialize") | Some("Deserialize"))
                && { let n = path(tcx, tcx.impl_trait_id(did)); n.ends_with("::Serialize") || n.ends_with("::Deserialize") }) {
                continue;
            }
        }
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let mut vs = vec![];
                for v in adt.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        fs.push(jo! {"name": f.name.as_str(), "ty": ti, "pub": f.vis.is_public(),
                            "attrs": attrs_of(tcx, f.did.expect_local())});
                    }
                    let va = if adt.is_enum() { attrs_of(tcx, v.def_id.expect_local()) } else { vec![] };
                    vs.push(jo! {"name": v.name.as_str(), "ctor": format!("{:?}", v.ctor_kind()), "attrs": va, "fields": fs});
                }
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(self_ty);
                let generic = !tcx.generics_of(did).own_params.is_empty();
                let (mut se, mut sy) = (J::Null, J::Null);
                {
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::non_body_analysis(tcx, did));
                    if !generic {
                        if let Some(s) = send {
                            se = J::Bool(infcx.type_implements_trait(s, [self_ty], pe).must_apply_modulo_regions());
                        }
                        if let Some(s) = sync {
                            sy = J::Bool(infcx.type_implements_trait(s, [self_ty], pe).must_apply_modulo_regions());
                        }
                    }
                }
                adts.push((path(tcx, did), jo! {
                    "kind": format!("{:?}", kind), "attrs": attrs_of(tcx, d), "variants": vs, "ty": tid, "file": file, "line": line,
                    "generic": generic, "send": se, "sync": sy, "exported": ev.is_exported(d), "mac": mac,
                }));
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = cx.ty(self_ty);
                let (tr, targs, neg) = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let a = cx.args(t.args);
                    (Some(path(tcx, t.def_id)), a, format!("{:?}", tcx.impl_polarity(did)))
                } else {
                    (None, vec![], String::new())
                };
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(ja![it.name().as_str(), path(tcx, it.def_id)]);
                }
                let uns = of_trait && tcx.impl_trait_header(did).safety.is_unsafe();
                impls.push(jo! {"trait": tr, "targs": targs, "self": st, "derive": derive_name(tcx, sp), "items": items,
                    "file": file, "line": line, "mac": mac, "unsafe": uns, "pol": neg, "generics": tcx.generics_of(did).count()});
            }
            DefKind::Fn | DefKind::AssocFn => {
                let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                let dv = dname.clone();
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let ins: Vec<J> = sig.inputs().skip_binder().iter().map(|t| J::from(cx.ty(*t))).collect();
                let outt = cx.ty(sig.output().skip_binder());
                let par = tcx.parent(did);
                let of_trait = match tcx.def_kind(par) {
                    DefKind::Impl { of_trait: true } => Some(path(tcx, tcx.impl_trait_id(par))),
                    DefKind::Trait => Some(path(tcx, par)),
                    _ => None,
                };
                let hasbody = tcx.hir_maybe_body_owned_by(d).is_some();
                let key = if hasbody && (dv.is_none()) {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let i = Instance::new_raw(did, args);
                    let rte = if gen { TypingEnv::post_analysis(tcx, did) } else { te };
                    roots.push((i, rte));
                    Some(cx.key(&i))
                } else {
                    None
                };
                fns.push((path(tcx, did), jo! {"exported": ev.is_exported(d), "reach": ev.is_reachable(d), "derive": dv, "generic": gen, "file": file, "line": line,
                    "ins": ins, "out": outt, "async": tcx.asyncness(did).is_async(), "unsafe": sig.safety().is_unsafe(), "trait": of_trait,
                    "key": key, "mac": mac, "name": tcx.item_name(did).as_str(), "parent": path(tcx, par),
                    "mod": path(tcx, tcx.parent_module_from_def_id(d).to_def_id())}));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let frz = t.is_freeze(tcx, te);
                let key = if frz || mac.is_some() {
                    None
                } else {
                    let i = Instance::mono(tcx, did);
                    roots.push((i, te));
                    Some(cx.key(&i))
                };
                statics.push(jo! {"path": path(tcx, did), "key": key, "ty": ti, "tys": with_no_trimmed_paths!(format!("{}", t)), "mut": tcx.is_mutable_static(did),
                    "freeze": t.is_freeze(tcx, te), "tls": tcx.is_thread_local_static(did), "file": file, "line": line, "mac": mac});
            }
            DefKind::Const { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                if !tcx.generics_of(did).requires_monomorphization(tcx) {
                    let c = mir::Const::from_unevaluated(tcx, did).instantiate_identity().skip_norm_wip();
                    let j = cx.constant(&c, te, sp);
                    consts.push((path(tcx, did), jo! {"ty": ti, "v": j, "file": file, "line": line, "mac": mac, "exported": ev.is_exported(d)}));
                }
            }
            DefKind::Trait => traits.push(jo! {"path": path(tcx, did), "file": file, "line": line, "exported": ev.is_exported(d)}),
            DefKind::TyAlias => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                aliases.push((path(tcx, did), jo! {"ty": ti, "exported": ev.is_exported(d)}));
            }
            DefKind::Mod => {
                for c in tcx.module_children_local(d) {
                    if let Some(r) = c.res.opt_def_id() {
                        reexports.push(ja![path(tcx, did), c.ident.name.as_str(), path(tcx, r), c.vis.is_public()]);
                    }
                }
            }
            _ => {}
        }
    }
    for (i, t) in roots {
        cx.enqueue(i, t);
    }
    let mut bodies = vec![];
    while let Some((i, t)) = cx.queue.pop_front() {
        let k = cx.key(&i);
        if let Some(b) = cx.body(i, t) {
            bodies.push((k, b));
        }
    }
    let mut uv = UnsafeV { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let files: Vec<J> = tcx
        .sess
        .source_map()
        .files()
        .iter()
        .filter(|f| f.is_imported() == false)
        .map(|f| ja![format!("{}", f.name.prefer_local_unconditionally()), f.count_lines()])
        .collect();
    let tys = std::mem::take(&mut cx.tys);
    let _ = Symbol::intern("x");
    let _ = LOCAL_CRATE;
    let _ = cx.te;
    let top = J::Map(vec![
        ("types".into(), tys.into()),
        ("adts".into(), J::Map(adts)),
        ("impls".into(), impls.into()),
        ("fns".into(), J::Map(fns)),
        ("statics".into(), statics.into()),
        ("consts".into(), J::Map(consts)),
        ("traits".into(), traits.into()),
        ("aliases".into(), J::Map(aliases)),
        ("reexports".into(), reexports.into()),
        ("unsafe".into(), uv.out.into()),
        ("files".into(), files.into()),
        ("bodies".into(), J::Map(bodies)),
    ]);
    let mut s = String::new();
    top.write(&mut s);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}
