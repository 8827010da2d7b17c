use crate::json::{n, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt,
    TypeVisitableExt, TypingEnv,
};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::io::{BufRead, Write};

pub struct S<'tcx> {
    tcx: TyCtxt<'tcx>,
    envs: Vec<TypingEnv<'tcx>>,
    tys: Vec<(Ty<'tcx>, usize)>,
    tyix: FxHashMap<(Ty<'tcx>, usize), usize>,
    insts: Vec<(Instance<'tcx>, usize)>,
    instix: FxHashMap<(Instance<'tcx>, usize), usize>,
    defs: Vec<DefId>,
    defix: FxHashMap<DefId, usize>,
    new_ty: Vec<(usize, J)>,
    new_inst: Vec<(usize, J)>,
}

fn rname<'tcx>(r: ty::Region<'tcx>) -> String {
    let t = format!("{}", r);
    if t == "'_" {
        format!("{:?}", r)
    } else {
        t
    }
}

pub fn serve<'tcx>(tcx: TyCtxt<'tcx>) {
    let mut st = S {
        tcx,
        envs: vec![TypingEnv::fully_monomorphized()],
        tys: vec![],
        tyix: Default::default(),
        insts: vec![],
        instix: Default::default(),
        defs: vec![],
        defix: Default::default(),
        new_ty: vec![],
        new_inst: vec![],
    };
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let r = match crate::json::parse(&line) {
            Ok(q) => {
                if q.get("op").and_then(|x| x.str()) == Some("quit") {
                    break;
                }
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| st.handle(&q))) {
                    Ok(r) => r,
                    Err(_) => obj! {"error" => s("panic")},
                }
            }
            Err(e) => obj! {"error" => s(e)},
        };
        let r = match r {
            J::Obj(mut v) => {
                let t: Vec<J> = st.new_ty.drain(..).map(|(i, j)| arr![n(i as u64), j]).collect();
                let i: Vec<J> = st.new_inst.drain(..).map(|(i, j)| arr![n(i as u64), j]).collect();
                v.push(("types".into(), J::Arr(t)));
                v.push(("insts".into(), J::Arr(i)));
                J::Obj(v)
            }
            x => x,
        };
        let mut o = String::new();
        r.write(&mut o);
        o.push('\n');
        if out.write_all(o.as_bytes()).is_err() {
            break;
        }
        let _ = out.flush();
    }
}

impl<'tcx> S<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn def(&mut self, d: DefId) -> usize {
        if let Some(&i) = self.defix.get(&d) {
            return i;
        }
        self.defs.push(d);
        self.defix.insert(d, self.defs.len() - 1);
        self.defs.len() - 1
    }
    fn env(&mut self, e: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.envs.iter().position(|x| *x == e) {
            return i;
        }
        self.envs.push(e);
        self.envs.len() - 1
    }
    fn ty(&mut self, t: Ty<'tcx>, env: usize) -> usize {
        let t = if t.has_erasable_regions() { self.tcx.erase_and_anonymize_regions(t) } else { t };
        let env = if t.has_param() { env } else { 0 };
        if let Some(&i) = self.tyix.get(&(t, env)) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push((t, env));
        self.tyix.insert((t, env), i);
        let j = self.ty_info(t, env);
        self.new_ty.push((i, j));
        i
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>, env: usize) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(n(self.ty(t, env) as u64)),
                GenericArgKind::Const(c) => v.push(obj! {"const" => s(format!("{}", c))}),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::Arr(v)
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }
    fn ty_info(&mut self, t: Ty<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let str_ = s(self.ty_str(t));
        let mut o = vec![("s".to_string(), str_)];
        let mut put = |k: &str, v: J| o.push((k.to_string(), v));
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                put("k", s("prim"));
            }
            ty::Adt(def, args) => {
                put("k", s("adt"));
                put("path", s(self.path(def.did())));
                put("d", n(self.def(def.did()) as u64));
                let a = self.args(args, env);
                put("args", a);
                put("enum", J::Bool(def.is_enum()));
                put("box", J::Bool(def.is_box()));
                put("union", J::Bool(def.is_union()));
                put("local", J::Bool(def.did().is_local()));
            }
            ty::Array(e, c) => {
                put("k", s("array"));
                put("t", n(self.ty(e, env) as u64));
                let l = c.try_to_target_usize(tcx);
                put("len", l.map(|x| n(x)).unwrap_or(J::Null));
                put("lens", s(format!("{}", c)));
            }
            ty::Pat(b, _) => {
                put("k", s("pat"));
                put("t", n(self.ty(b, env) as u64));
            }
            ty::Slice(e) => {
                put("k", s("slice"));
                put("t", n(self.ty(e, env) as u64));
            }
            ty::RawPtr(e, m) => {
                put("k", s("ptr"));
                put("t", n(self.ty(e, env) as u64));
                put("mut", J::Bool(m.is_mut()));
            }
            ty::Ref(_, e, m) => {
                put("k", s("ref"));
                put("t", n(self.ty(e, env) as u64));
                put("mut", J::Bool(m.is_mut()));
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                put("k", s("fndef"));
                put("d", n(self.def(d) as u64));
                put("path", s(self.path(d)));
                let a = self.args(args, env);
                put("args", a);
                put("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    put("trait", s(self.path(tr)));
                }
                put("ctor", J::Bool(matches!(tcx.def_kind(d), DefKind::Ctor(..))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                put("unsafe", J::Bool(!sig.safety().is_safe()));
                let r = self.resolve(d, args, env);
                put("inst", r);
            }
            ty::FnPtr(..) => {
                put("k", s("fnptr"));
            }
            ty::Dynamic(preds, _) => {
                put("k", s("dyn"));
                if let Some(p) = preds.principal_def_id() {
                    put("trait", s(self.path(p)));
                }
            }
            ty::Closure(d, args) => {
                put("k", s("closure"));
                put("d", n(self.def(d) as u64));
                put("path", s(self.path(d)));
                let c = args.as_closure();
                put("kind", s(format!("{:?}", c.kind())));
                let ups: Vec<J> =
                    c.upvar_tys().iter().map(|t| n(self.ty(t, env) as u64)).collect();
                put("upvars", J::Arr(ups));
                let inst = Instance { def: InstanceKind::Item(d), args };
                let i = self.inst(inst, env);
                put("inst", n(i as u64));
            }
            ty::Tuple(ts) => {
                put("k", s("tuple"));
                let v = ts.iter().map(|t| n(self.ty(t, env) as u64)).collect();
                put("ts", J::Arr(v));
            }
            ty::Alias(_, a) => {
                put("k", s("alias"));
                put("a", s(format!("{:?}", a)));
            }
            ty::Param(p) => {
                put("k", s("param"));
                put("name", s(p.name.to_string()));
                put("idx", n(p.index));
            }
            _ => put("k", s("other")),
        }
        J::Obj(o)
    }
    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: usize) -> J {
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            return J::Null;
        }
        let e = self.envs[env];
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, e, d, args) {
            Ok(Some(i)) => {
                let i = self.inst(i, env);
                n(i as u64)
            }
            _ => J::Null,
        }
    }
    fn inst(&mut self, i: Instance<'tcx>, env: usize) -> usize {
        let env = if i.args.has_param() { env } else { 0 };
        if let Some(&k) = self.instix.get(&(i, env)) {
            return k;
        }
        let k = self.insts.len();
        self.insts.push((i, env));
        self.instix.insert((i, env), k);
        let j = self.inst_info(i, env);
        self.new_inst.push((k, j));
        k
    }
    fn inst_info(&mut self, i: Instance<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let d = i.def.def_id();
        let mut o: Vec<(String, J)> = vec![];
        let mut put = |k: &str, v: J| o.push((k.to_string(), v));
        put("path", s(self.path(d)));
        put("env", n(env as u64));
        put("d", n(self.def(d) as u64));
        put("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()));
        let (kind, body) = match i.def {
            InstanceKind::Item(d) => ("item", tcx.is_mir_available(d)),
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::LlvmIntrinsic(_) => ("intrinsic", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            InstanceKind::Shim(ref k) => match k {
                ShimKind::DropGlue(..) => ("dropglue", false),
                ShimKind::ClosureOnce { .. } => ("closure_once", false),
                ShimKind::FnPtr(..) => ("fnptr_shim", false),
                ShimKind::Reify(..) => ("reify", false),
                ShimKind::Clone(..) => ("clone_shim", false),
                _ => ("shim", false),
            },
        };
        put("kind", s(kind));
        put("body", J::Bool(body));
        let a = self.args(i.args, env);
        put("args", a);
        put("local", J::Bool(d.is_local()));
        put("crate", s(tcx.crate_name(d.krate).to_string()));
        if tcx.is_closure_like(d) {
            put("closure", J::Bool(true));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            put("impl_self", s(self.ty_str(st)));
            if let Some(adt) = st.ty_adt_def() {
                put("impl_adt", s(self.path(adt.did())));
            }
            if tcx.impl_is_of_trait(imp) {
                put("impl_trait", s(self.path(tcx.impl_trait_ref(imp).skip_binder().def_id)));
            }
            put("impl_span", self.span(tcx.def_span(imp)));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            put("trait", s(self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            put("unsafe", J::Bool(!sig.safety().is_safe()));
            let parent = tcx.parent(d);
            put("parent", s(self.path(parent)));
        }
        put("span", self.span(tcx.def_span(d)));
        J::Obj(o)
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn place(&mut self, p: &Place<'tcx>, env: usize) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr![s("*")],
                ProjectionElem::Field(f, t) => arr![s("f"), n(f.as_u32()), n(self.ty(t, env) as u64)],
                ProjectionElem::Index(l) => arr![s("i"), n(l.as_u32())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("ci"), n(offset), n(min_length), J::Bool(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr![s("ss"), n(from), n(to), J::Bool(from_end)]
                }
                ProjectionElem::Downcast(_, i) => arr![s("v"), n(i.as_u32())],
                ProjectionElem::OpaqueCast(_) => arr![s("oc")],
                ProjectionElem::UnwrapUnsafeBinder(_) => arr![s("ub")],
                _ => arr![s("pd")],
            });
        }
        arr![n(p.local.as_u32()), J::Arr(v)]
    }
    fn op(&mut self, o: &Operand<'tcx>, env: usize) -> J {
        match o {
            Operand::Copy(p) => arr![s("c"), self.place(p, env)],
            Operand::Move(p) => arr![s("m"), self.place(p, env)],
            Operand::Constant(c) => {
                let k = self.konst(c.const_, env);
                arr![s("k"), k]
            }
            Operand::RuntimeChecks(r) => arr![s("rc"), s(format!("{:?}", r))],
        }
    }
    fn konst(&mut self, c: mir::Const<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let tid = self.ty(ty, env);
        let mut o: Vec<(String, J)> = vec![("ty".into(), n(tid as u64))];
        let e = self.envs[env];
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let i = self.inst(Instance { def: InstanceKind::Item(u.def), args: tcx.erase_and_anonymize_regions(u.args) }, env);
                o.push(("promoted".into(), n(p.as_u32())));
                o.push(("inst".into(), n(i as u64)));
                return J::Obj(o);
            }
            let has = u.args.has_param();
            let ev = if has { None } else { c.eval(tcx, e, rustc_span::DUMMY_SP).ok() };
            match ev {
                Some(v) => {
                    self.cval(v, ty, env, &mut o);
                }
                None => {
                    o.push(("un".into(), s(self.path(u.def))));
                    let a = self.args(u.args, env);
                    o.push(("args".into(), a));
                    let args = tcx.erase_and_anonymize_regions(u.args);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, e, u.def, args) {
                        let i = self.inst(i, env);
                        o.push(("inst".into(), n(i as u64)));
                    }
                }
            }
            return J::Obj(o);
        }
        match c {
            mir::Const::Val(v, _) => self.cval(v, ty, env, &mut o),
            mir::Const::Ty(_, k) => {
                if let Some(x) = k.try_to_target_usize(tcx) {
                    o.push(("int".into(), n(x)));
                } else {
                    o.push(("text".into(), s(format!("{}", k))));
                }
            }
            _ => {}
        }
        J::Obj(o)
    }
    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>, env: usize, o: &mut Vec<(String, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst".into(), J::Bool(true))),
            ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    let size = i.size();
                    if ty.is_signed() {
                        o.push(("int".into(), n(i.to_int(size))));
                    } else {
                        o.push(("int".into(), n(i.to_bits(size))));
                    }
                } else {
                    o.push(("ptr".into(), s(format!("{:?}", sc))));
                }
            }
            ConstValue::Slice { .. } => {
                let txt = v
                    .try_get_slice_bytes_for_diagnostics(tcx)
                    .map(|b| String::from_utf8_lossy(b).into_owned())
                    .unwrap_or_default();
                o.push(("str".into(), s(txt)));
            }
            ConstValue::Indirect { .. } => {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, ty);
                if let Some(d) = d {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let t = self.ty(*ft, env);
                        let mut oo = vec![("ty".to_string(), n(t as u64))];
                        self.cval(*fv, *ft, env, &mut oo);
                        fs.push(J::Obj(oo));
                    }
                    o.push(("agg".into(), J::Arr(fs)));
                    if let Some(vi) = d.variant {
                        o.push(("variant".into(), n(vi.as_u32())));
                    }
                } else {
                    o.push(("indirect".into(), J::Bool(true)));
                }
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: usize) -> J {
        match r {
            Rvalue::Use(o, _) => arr![s("use"), self.op(o, env)],
            Rvalue::Repeat(o, c) => arr![
                s("repeat"),
                self.op(o, env),
                c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null)
            ],
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                arr![s("ref"), J::Bool(m), self.place(p, env)]
            }
            Rvalue::ThreadLocalRef(_) => arr![s("tls")],
            Rvalue::RawPtr(_, p) => arr![s("rawptr"), self.place(p, env)],
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerCoercion(c, _) => format!("pc:{:?}", c),
                    k => format!("{:?}", k),
                };
                let src = self.op(o, env);
                let t = self.ty(*t, env);
                arr![s("cast"), s(k), src, n(t as u64)]
            }
            Rvalue::BinaryOp(b, x) => {
                arr![s("bin"), s(format!("{:?}", b)), self.op(&x.0, env), self.op(&x.1, env)]
            }
            Rvalue::UnaryOp(u, x) => arr![s("un"), s(format!("{:?}", u)), self.op(x, env)],
            Rvalue::Discriminant(p) => arr![s("discr"), self.place(p, env)],
            Rvalue::Aggregate(k, fs) => {
                let fs_: Vec<J> = fs.iter().map(|f| self.op(f, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => arr![s("array"), n(self.ty(*t, env) as u64)],
                    AggregateKind::Tuple => arr![s("tuple")],
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self
                            .tcx
                            .type_of(*d)
                            .instantiate(self.tcx, args)
                            .skip_norm_wip();
                        arr![
                            s("adt"),
                            n(self.ty(t, env) as u64),
                            n(v.as_u32()),
                            active.map(|a| n(a.as_u32())).unwrap_or(J::Null)
                        ]
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        arr![s("closure"), n(self.ty(t, env) as u64)]
                    }
                    AggregateKind::RawPtr(t, _) => arr![s("rawptr"), n(self.ty(*t, env) as u64)],
                    _ => arr![s("other")],
                };
                arr![s("agg"), k, J::Arr(fs_)]
            }
            Rvalue::CopyForDeref(p) => arr![s("use"), arr![s("c"), self.place(p, env)]],
            Rvalue::Reborrow(_, _, p) => arr![s("use"), arr![s("c"), self.place(p, env)]],
            Rvalue::WrapUnsafeBinder(o, _) => arr![s("use"), self.op(o, env)],
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("cont"),
            UnwindAction::Unreachable => s("unreach"),
            UnwindAction::Terminate(_) => s("term"),
            UnwindAction::Cleanup(b) => n(b.as_u32()),
        }
    }
    fn body_json(&mut self, body: &Body<'tcx>, env: usize) -> J {
        let locals: Vec<J> =
            body.local_decls.iter().map(|l| n(self.ty(l.ty, env) as u64)).collect();
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(arr![n(p.local.as_u32()), s(v.name.to_string())]);
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(b) => {
                        arr![s("="), self.place(&b.0, env), self.rvalue(&b.1, env), self.span(x.source_info.span)]
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        arr![s("sd"), self.place(place, env), n(variant_index.as_u32())]
                    }
                    StatementKind::StorageDead(l) => arr![s("dead"), n(l.as_u32())],
                    StatementKind::StorageLive(l) => arr![s("live"), n(l.as_u32())],
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => arr![s("assume"), self.op(o, env)],
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => arr![
                            s("copynon"),
                            self.op(&c.src, env),
                            self.op(&c.dst, env),
                            self.op(&c.count, env),
                            self.span(x.source_info.span)
                        ],
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr![s("goto"), n(target.as_u32())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| arr![n(v), n(b.as_u32())]).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    arr![
                        s("switch"),
                        self.op(discr, env),
                        J::Arr(v),
                        n(targets.otherwise().as_u32()),
                        n(self.ty(dt, env) as u64),
                        sp
                    ]
                }
                TerminatorKind::UnwindResume => arr![s("resume")],
                TerminatorKind::UnwindTerminate(_) => arr![s("abort")],
                TerminatorKind::Return => arr![s("ret")],
                TerminatorKind::Unreachable => arr![s("unreachable")],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    arr![
                        s("drop"),
                        self.place(place, env),
                        n(target.as_u32()),
                        self.unwind(unwind),
                        n(self.ty(pt, env) as u64),
                        sp
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, env);
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let a: Vec<J> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|a| n(self.ty(a.node.ty(&body.local_decls, self.tcx), env) as u64))
                        .collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    arr![
                        s("call"),
                        f,
                        J::Arr(a),
                        self.place(destination, env),
                        target.map(|t| n(t.as_u32())).unwrap_or(J::Null),
                        self.unwind(unwind),
                        sp,
                        n(self.ty(ft, env) as u64),
                        J::Arr(at),
                        n(self.ty(dt, env) as u64)
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => arr![
                    s("assert"),
                    self.op(cond, env),
                    J::Bool(*expected),
                    n(target.as_u32()),
                    self.unwind(unwind),
                    s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string()),
                    sp
                ],
                TerminatorKind::FalseEdge { real_target, .. } => {
                    arr![s("goto"), n(real_target.as_u32())]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr![s("goto"), n(real_target.as_u32())]
                }
                x => arr![s("other"), s(format!("{:?}", x).chars().take(60).collect::<String>())],
            };
            blocks.push(arr![J::Arr(st), tj, J::Bool(bb.is_cleanup)]);
        }
        obj! {
            "argc" => n(body.arg_count as u64),
            "locals" => J::Arr(locals),
            "names" => J::Arr(names),
            "blocks" => J::Arr(blocks),
            "spread" => body.spread_arg.map(|l| n(l.as_u32())).unwrap_or(J::Null),
        }
    }
    fn get_body(&mut self, k: usize, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let (i, env) = self.insts[k];
        let e = self.envs[env];
        let body: &Body<'tcx> = match (i.def, promoted) {
            (InstanceKind::Item(d), Some(p)) => {
                let ps = tcx.promoted_mir(d);
                &ps[mir::Promoted::from_usize(p)]
            }
            (InstanceKind::Item(d), None) => {
                if matches!(
                    tcx.def_kind(d),
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. }
                ) {
                    tcx.mir_for_ctfe(d)
                } else if tcx.is_mir_available(d) {
                    tcx.instance_mir(i.def)
                } else {
                    return obj! {"error" => s("no mir")};
                }
            }
            (InstanceKind::Shim(_), None) => tcx.instance_mir(i.def),
            _ => return obj! {"error" => s("no mir")},
        };
        let b = i.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            e,
            EarlyBinder::bind(tcx, body.clone()),
        );
        match b {
            Ok(b) => {
                let j = self.body_json(&b, env);
                obj! {"body" => j}
            }
            Err(_) => obj! {"error" => s("normalize")},
        }
    }
    fn adt_info(&mut self, k: usize) -> J {
        let tcx = self.tcx;
        let (t, env) = self.tys[k];
        let e = self.envs[env];
        let mut o: Vec<(String, J)> = vec![];
        let layout = tcx.layout_of(e.as_query_input(t)).ok();
        o.push((
            "size".into(),
            layout.filter(|l| l.is_sized()).map(|l| n(l.size.bytes())).unwrap_or(J::Null),
        ));
        o.push((
            "align".into(),
            layout.filter(|l| l.is_sized()).map(|l| n(l.align.abi.bytes())).unwrap_or(J::Null),
        ));
        o.push(("needs_drop".into(), J::Bool(t.needs_drop(tcx, e))));
        o.push(("copy".into(), J::Bool(tcx.type_is_copy_modulo_regions(e, t))));
        o.push(("sized".into(), J::Bool(t.is_sized(tcx, e))));
        if let ty::Adt(def, args) = *t.kind() {
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx
                        .try_normalize_erasing_regions(e, ft)
                        .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                    fs.push(obj! {
                        "name" => s(f.name.to_string()),
                        "ty" => n(self.ty(ft, env) as u64),
                        "pub" => J::Bool(f.vis.is_public()),
                    });
                }
                let dv = if def.is_enum() {
                    n(def.discriminant_for_variant(tcx, vi).val)
                } else {
                    n(0)
                };
                vs.push(obj! {"name" => s(v.name.to_string()), "discr" => dv, "fields" => J::Arr(fs)});
            }
            o.push(("variants".into(), J::Arr(vs)));
            if let Some(dd) = tcx.adt_destructor(def.did()) {
                let r = self.resolve(dd.did, args, env);
                o.push(("drop".into(), r));
            } else {
                o.push(("drop".into(), J::Null));
            }
        }
        obj! {"adt" => J::Obj(o)}
    }
    // ---- lookup of items by path
    fn lookup(&self, path: &str) -> Option<DefId> {
        let tcx = self.tcx;
        let mut segs = path.split("::");
        let first = segs.next()?;
        let mut cur: DefId = if first == "crate" || first == tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() {
            rustc_hir::def_id::CRATE_DEF_ID.to_def_id()
        } else {
            match tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == first) {
                Some(c) => c.as_def_id(),
                None => return self.lookup(&format!("crate::{}", path)),
            }
        };
        for sg in segs {
            let mut next = None;
            if matches!(tcx.def_kind(cur), DefKind::Struct | DefKind::Enum) {
                // an inherent function
                for i in tcx.inherent_impls(cur).iter() {
                    for a in tcx.associated_item_def_ids(*i).iter() {
                        if tcx.opt_item_name(*a).map_or(false, |n| n.as_str() == sg) {
                            next = Some(*a);
                        }
                    }
                }
                cur = next?;
                continue;
            }
            let kids = if cur.is_local() {
                tcx.module_children_local(cur.expect_local())
            } else {
                tcx.module_children(cur)
            };
            for k in kids.iter() {
                if k.ident.name.as_str() == sg {
                    if let rustc_hir::def::Res::Def(dk, d) = k.res {
                        if !matches!(dk, DefKind::Macro(_) | DefKind::Ctor(..) | DefKind::Fn) {
                            next = Some(d);
                        } else if next.is_none() && matches!(dk, DefKind::Fn) {
                            next = Some(d);
                        }
                    }
                }
            }
            cur = next?;
        }
        Some(cur)
    }
    fn mk_ty(&mut self, j: &J, identity: Option<Ty<'tcx>>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        match j {
            J::Null => identity,
            J::Num(k) => Some(self.tys[*k as usize].0),
            J::Str(p) => Some(match p.as_str() {
                "usize" => tcx.types.usize,
                "u8" => tcx.types.u8,
                "u16" => tcx.types.u16,
                "u32" => tcx.types.u32,
                "u64" => tcx.types.u64,
                "u128" => tcx.types.u128,
                "i8" => tcx.types.i8,
                "i16" => tcx.types.i16,
                "i32" => tcx.types.i32,
                "i64" => tcx.types.i64,
                "i128" => tcx.types.i128,
                "isize" => tcx.types.isize,
                "f32" => tcx.types.f32,
                "f64" => tcx.types.f64,
                "bool" => tcx.types.bool,
                "()" => tcx.types.unit,
                _ => {
                    let d = self.lookup(p)?;
                    tcx.type_of(d).instantiate_identity().skip_norm_wip()
                }
            }),
            J::Arr(v) => {
                let k = v.first()?.str()?.to_string();
                let a: Vec<Ty<'tcx>> =
                    v[1..].iter().map(|x| self.mk_ty(x, None)).collect::<Option<Vec<_>>>()?;
                match k.as_str() {
                    "slice" => Some(Ty::new_slice(tcx, a[0])),
                    "ptr" => Some(Ty::new_ptr(tcx, a[0], rustc_hir::Mutability::Mut)),
                    "ref" => Some(Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, a[0])),
                    "refmut" => Some(Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, a[0])),
                    "box" => Some(Ty::new_box(tcx, a[0])),
                    "tuple" => Some(Ty::new_tup(tcx, &a)),
                    "maybe" => Some(Ty::new_maybe_uninit(tcx, a[0])),
                    p => {
                        let d = self.lookup(p)?;
                        let adt = tcx.adt_def(d);
                        let mut it = a.into_iter();
                        let g = ty::GenericArgs::for_item(tcx, d, |p, prev| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            ty::GenericParamDefKind::Type { .. } => match it.next() {
                                Some(t) => t.into(),
                                None => tcx
                                    .type_of(p.def_id)
                                    .instantiate(tcx, prev)
                                    .skip_norm_wip()
                                    .into(),
                            },
                            _ => panic!("const"),
                        });
                        Some(Ty::new_adt(tcx, adt, g))
                    }
                }
            }
            _ => None,
        }
    }
    fn generics(&self, d: DefId) -> Vec<(String, String)> {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        (0..g.count())
            .map(|i| {
                let p = g.param_at(i, tcx);
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => "lt",
                    ty::GenericParamDefKind::Type { synthetic, .. } => {
                        if synthetic {
                            "impl"
                        } else {
                            "ty"
                        }
                    }
                    _ => "const",
                };
                (p.name.to_string(), k.to_string())
            })
            .collect()
    }
    fn preds(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let p = tcx.clauses_of(d).instantiate_identity(tcx);
        J::Arr(
            p.clauses
                .iter()
                .map(|c| {
                    let c = c.skip_norm_wip();
                    s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", c))))
                })
                .collect(),
        )
    }
    /// Region-carrying rendering of a type.
    fn rt(&self, t: Ty<'tcx>) -> J {
        let reg = |r: ty::Region<'tcx>| s(rname(r));
        match *t.kind() {
            ty::Ref(r, t, m) => obj! {"k" => s("ref"), "r" => reg(r), "mut" => J::Bool(m.is_mut()), "t" => self.rt(t)},
            ty::RawPtr(t, m) => obj! {"k" => s("ptr"), "mut" => J::Bool(m.is_mut()), "t" => self.rt(t)},
            ty::Slice(t) => obj! {"k" => s("slice"), "t" => self.rt(t)},
            ty::Array(t, _) => obj! {"k" => s("array"), "t" => self.rt(t)},
            ty::Tuple(ts) => obj! {"k" => s("tuple"), "ts" => J::Arr(ts.iter().map(|t| self.rt(t)).collect())},
            ty::Adt(d, args) => {
                let a = self.rt_args(args);
                obj! {"k" => s("adt"), "path" => s(self.path(d.did())), "local" => J::Bool(d.did().is_local()), "args" => a}
            }
            ty::Param(p) => obj! {"k" => s("param"), "name" => s(p.name.to_string())},
            ty::Alias(_, a) => {
                let mut extra = J::Null;
                let mut opaque = false;
                let mut path = String::new();
                if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                    opaque = true;
                    path = self.path(def_id);
                    let b = self.tcx.item_bounds(def_id).instantiate(self.tcx, a.args).skip_norm_wip();
                    extra = J::Arr(b.iter().map(|c| self.clause(c)).collect());
                }
                obj! {"k" => s("alias"), "opaque" => J::Bool(opaque), "path" => s(path), "args" => self.rt_args(a.args), "bounds" => extra, "s" => s(self.ty_str(t))}
            }
            ty::Dynamic(_, r) => obj! {"k" => s("dyn"), "r" => reg(r), "s" => s(self.ty_str(t))},
            ty::FnPtr(..) => obj! {"k" => s("fnptr"), "s" => s(self.ty_str(t))},
            _ => obj! {"k" => s("prim"), "s" => s(self.ty_str(t))},
        }
    }
    fn rt_args(&self, args: &[ty::GenericArg<'tcx>]) -> J {
        J::Arr(
            args.iter()
                .map(|a| match a.kind() {
                    GenericArgKind::Type(t) => self.rt(t),
                    GenericArgKind::Lifetime(r) => obj! {"k" => s("lt"), "r" => s(rname(r))},
                    _ => obj! {"k" => s("const")},
                })
                .collect(),
        )
    }
    fn clause(&self, c: ty::Clause<'tcx>) -> J {
        match c.kind().skip_binder() {
            ty::ClauseKind::Projection(p) => {
                let t = p.term.as_type().map(|t| self.rt(t)).unwrap_or(J::Null);
                obj! {"k" => s("proj"), "t" => t}
            }
            ty::ClauseKind::Trait(t) => obj! {"k" => s("trait"), "path" => s(self.path(t.def_id())), "args" => self.rt_args(&t.trait_ref.args[1..])},
            ty::ClauseKind::TypeOutlives(o) => obj! {"k" => s("tyout"), "r" => s(format!("{}", o.1))},
            ty::ClauseKind::RegionOutlives(o) => obj! {"k" => s("regout"), "a" => s(format!("{}", o.0)), "b" => s(format!("{}", o.1))},
            _ => obj! {"k" => s("other")},
        }
    }
    fn items(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        for id in ids {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let env = self.env(env);
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let esig = tcx.instantiate_bound_regions_with_erased(sig);
                    let has_body = match tcx.trait_of_assoc(d) {
                        Some(_) => tcx.is_mir_available(d),
                        None => true,
                    };
                    let ins: Vec<J> = esig
                        .inputs()
                        .iter()
                        .map(|t| {
                            let t = tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(*t)).unwrap_or(*t);
                            n(self.ty(t, env) as u64)
                        })
                        .collect();
                    let o = tcx
                        .try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(esig.output()))
                        .unwrap_or(esig.output());
                    let out = n(self.ty(o, env) as u64);
                    let rs = sig.skip_binder();
                    let rin: Vec<J> = rs.inputs().iter().map(|t| self.rt(*t)).collect();
                    let rout = self.rt(rs.output());
                    let gen: Vec<J> =
                        self.generics(d).into_iter().map(|(a, b)| arr![s(a), s(b)]).collect();
                    let mut impl_trait = J::Null;
                    let mut impl_self = J::Null;
                    let mut impl_adt = J::Null;
                    let mut impl_trait_args = J::Null;
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        impl_self = s(self.ty_str(st));
                        if let Some(adt) = st.ty_adt_def() {
                            impl_adt = s(self.path(adt.did()));
                        }
                        if tcx.impl_is_of_trait(imp) {
                            let tr = tcx.impl_trait_ref(imp).skip_binder();
                            impl_trait = s(self.path(tr.def_id));
                            impl_trait_args = s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", tr))));
                        }
                    }
                    let tr = tcx.trait_of_assoc(d).map(|t| s(self.path(t))).unwrap_or(J::Null);
                    let preds = self.preds(d);
                    let names: Vec<J> = tcx
                        .fn_arg_idents(d)
                        .iter()
                        .map(|x| x.map(|i| s(i.name.to_string())).unwrap_or(J::Null))
                        .collect();
                    let pub_ = ev.is_reachable(id);
                    let exported = ev.is_exported(id);
                    fns.push(obj! {
                        "d" => n(self.def(d) as u64),
                        "path" => s(self.path(d)),
                        "name" => s(tcx.item_name(d).to_string()),
                        "reachable" => J::Bool(pub_),
                        "exported" => J::Bool(exported),
                        "vis_pub" => J::Bool(tcx.visibility(d).is_public()),
                        "unsafe" => J::Bool(!sig.safety().is_safe()),
                        "generics" => J::Arr(gen),
                        "preds" => preds,
                        "in" => J::Arr(ins),
                        "out" => out,
                        "rin" => J::Arr(rin),
                        "rout" => rout,
                        "argnames" => J::Arr(names),
                        "impl_trait" => impl_trait,
                        "impl_trait_ref" => impl_trait_args,
                        "impl_self" => impl_self,
                        "impl_adt" => impl_adt,
                        "trait" => tr,
                        "has_body" => J::Bool(has_body),
                        "parent" => s(self.path(tcx.parent(d))),
                        "env" => n(env as u64),
                        "span" => self.span(tcx.def_span(d)),
                        "exp" => J::Bool(tcx.def_span(d).from_expansion()),
                    });
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let gen: Vec<J> =
                        self.generics(d).into_iter().map(|(a, b)| arr![s(a), s(b)]).collect();
                    let mut vs = vec![];
                    for v in adt.variants().iter() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                obj! {"name" => s(f.name.to_string()), "pub" => J::Bool(f.vis.is_public()), "t" => self.rt(t), "s" => s(self.ty_str(t))}
                            })
                            .collect();
                        vs.push(obj! {"name" => s(v.name.to_string()), "fields" => J::Arr(fs)});
                    }
                    let env = TypingEnv::post_analysis(tcx, d);
                    let env = self.env(env);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t, env);
                    let preds = self.preds(d);
                    adts.push(obj! {
                        "d" => n(self.def(d) as u64),
                        "path" => s(self.path(d)),
                        "reachable" => J::Bool(ev.is_reachable(id)),
                        "exported" => J::Bool(ev.is_exported(id)),
                        "enum" => J::Bool(adt.is_enum()),
                        "generics" => J::Arr(gen),
                        "preds" => preds,
                        "variants" => J::Arr(vs),
                        "ty" => n(t as u64),
                        "env" => n(env as u64),
                        "nonexh" => J::Bool(adt.is_variant_list_non_exhaustive()),
                        "span" => self.span(tcx.def_span(d)),
                    });
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    let env = self.env(env);
                    let tid = self.ty(st, env);
                    let (trp, trs, uns, neg) = if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = h.trait_ref.skip_binder();
                        (
                            s(self.path(tr.def_id)),
                            s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", tr)))),
                            !h.safety.is_safe(),
                            h.polarity == ty::ImplPolarity::Negative,
                        )
                    } else {
                        (J::Null, J::Null, false, false)
                    };
                    let gen: Vec<J> =
                        self.generics(d).into_iter().map(|(a, b)| arr![s(a), s(b)]).collect();
                    let its: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| arr![s(a.opt_name().map(|x| x.to_string()).unwrap_or_default()), n(self.def(a.def_id) as u64)])
                        .collect();
                    let preds = self.preds(d);
                    impls.push(obj! {
                        "d" => n(self.def(d) as u64),
                        "self" => s(self.ty_str(st)),
                        "self_adt" => st.ty_adt_def().map(|a| s(self.path(a.did()))).unwrap_or(J::Null),
                        "ty" => n(tid as u64),
                        "trait" => trp,
                        "trait_ref" => trs,
                        "unsafe" => J::Bool(uns),
                        "neg" => J::Bool(neg),
                        "generics" => J::Arr(gen),
                        "preds" => preds,
                        "items" => J::Arr(its),
                        "env" => n(env as u64),
                        "span" => self.span(tcx.def_span(d)),
                    });
                }
                DefKind::Trait => {
                    let td = tcx.trait_def(d);
                    traits.push(obj! {
                        "d" => n(self.def(d) as u64),
                        "path" => s(self.path(d)),
                        "reachable" => J::Bool(ev.is_reachable(id)),
                        "exported" => J::Bool(ev.is_exported(id)),
                        "unsafe" => J::Bool(!td.safety.is_safe()),
                        "preds" => self.preds(d),
                    });
                }
                _ => {}
            }
        }
        obj! {"fns" => J::Arr(fns), "adts" => J::Arr(adts), "impls" => J::Arr(impls), "traits" => J::Arr(traits)}
    }
    /// Builds the environment `base` (a definition) + extra bounds `param: Trait`.
    fn env_with(&mut self, d: DefId, extra: &[J]) -> Option<TypingEnv<'tcx>> {
        let tcx = self.tcx;
        let base = tcx.param_env(d);
        let mut clauses: Vec<ty::Clause<'tcx>> = base.caller_bounds().collect();
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let g = tcx.generics_of(d);
        for e in extra {
            let e = e.arr();
            let pname = e[0].str()?;
            let tr = self.lookup(e[1].str()?)?;
            for i in 0..g.count() {
                if g.param_at(i, tcx).name.as_str() == pname {
                    let t = args.type_at(i);
                    let tref = ty::TraitRef::new(tcx, tr, [t]);
                    use rustc_middle::ty::Upcast;
                    clauses.push(tref.upcast(tcx));
                }
            }
        }
        let env = ty::ParamEnv::new(tcx, clauses);
        let env = rustc_trait_selection::traits::normalize_param_env_or_error(
            tcx,
            env,
            rustc_middle::traits::ObligationCause::dummy(),
        );
        let te = TypingEnv::new(env, ty::TypingMode::PostAnalysis);
        Some(te)
    }
    fn param_of(&self, d: DefId, name: &str) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let g = tcx.generics_of(d);
        (0..g.count()).find(|i| g.param_at(*i, tcx).name.as_str() == name).map(|i| args.type_at(i))
    }
    fn handle(&mut self, q: &J) -> J {
        let tcx = self.tcx;
        let op = q.get("op").and_then(|x| x.str()).unwrap_or("").to_string();
        let num = |k: &str| q.get(k).and_then(|x| x.num()).map(|x| x as usize);
        match op.as_str() {
            "items" => self.items(),
            "body" => self.get_body(num("inst").unwrap(), num("promoted")),
            "adt" => self.adt_info(num("ty").unwrap()),
            "lookup" => match q.get("path").and_then(|p| p.str()).and_then(|p| self.lookup(p)) {
                Some(d) => obj! {"d" => n(self.def(d) as u64)},
                None => obj! {"error" => s("not found")},
            },
            // a type in the environment of a definition
            "mkty" => {
                let env = num("env").unwrap_or(0);
                match self.mk_ty(q.get("ty").unwrap(), None) {
                    Some(t) => obj! {"ty" => n(self.ty(t, env) as u64)},
                    None => obj! {"error" => s("type not found")},
                }
            }
            // instance of a local fn with its own parameters, some of them replaced
            "inst" => {
                let d = self.defs[num("d").unwrap()];
                let sub = q.get("sub").map(|x| x.arr().to_vec()).unwrap_or_default();
                let ident = ty::GenericArgs::identity_for_item(tcx, d);
                let g = tcx.generics_of(d);
                let mut v: Vec<ty::GenericArg<'tcx>> = vec![];
                let mut changed = false;
                for (i, a) in ident.iter().enumerate() {
                    let name = g.param_at(i, tcx).name.to_string();
                    let mut r = a;
                    for x in &sub {
                        let x = x.arr();
                        if x[0].str() == Some(&name) && a.as_type().is_some() {
                            match self.mk_ty(&x[1], None) {
                                Some(t) => {
                                    r = t.into();
                                    changed = true;
                                }
                                None => return obj! {"error" => s("type not found")},
                            }
                        }
                    }
                    v.push(r);
                }
                let args = tcx.mk_args(&v);
                let te = if let Some(e) = num("env") {
                    self.envs[e]
                } else if changed {
                    let pe = tcx.param_env(d);
                    let cl: Vec<ty::Clause<'tcx>> = pe.caller_bounds().map(|c| EarlyBinder::bind(tcx, c).instantiate(tcx, args).skip_norm_wip()).collect();
                    let pe = ty::ParamEnv::new(tcx, cl);
                    let pe = rustc_trait_selection::traits::normalize_param_env_or_error(
                        tcx,
                        pe,
                        rustc_middle::traits::ObligationCause::dummy(),
                    );
                    TypingEnv::new(pe, ty::TypingMode::PostAnalysis)
                } else {
                    TypingEnv::post_analysis(tcx, d)
                };
                let env = self.env(te);
                let args = tcx.erase_and_anonymize_regions(args);
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
                let esig = tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<J> = esig
                    .inputs()
                    .iter()
                    .map(|t| {
                        let t = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(*t)).unwrap_or(*t);
                        n(self.ty(t, env) as u64)
                    })
                    .collect();
                let o = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(esig.output())).unwrap_or(esig.output());
                let out = self.ty(o, env);
                let i = match Instance::try_resolve(tcx, te, d, args) {
                    Ok(Some(i)) => i,
                    _ => Instance { def: InstanceKind::Item(d), args },
                };
                let i = self.inst(i, env);
                let a = self.args(args, env);
                obj! {"inst" => n(i as u64), "in" => J::Arr(ins), "out" => n(out as u64), "env" => n(env as u64), "args" => a}
            }
            // resolve a trait method (by def) with explicit type args (list of type ids)
            "method" => {
                let tr = match q.get("trait").and_then(|p| p.str()).and_then(|p| self.lookup(p)) {
                    Some(d) => d,
                    None => return obj! {"error" => s("trait not found")},
                };
                let name = q.get("name").and_then(|p| p.str()).unwrap();
                let env = num("env").unwrap_or(0);
                let provided = matches!(q.get("provided"), Some(J::Bool(true)));
                let m = tcx
                    .associated_items(tr)
                    .in_definition_order()
                    .find(|a| a.is_fn() && a.opt_name().map(|x| x.to_string()).as_deref() == Some(name))
                    .map(|a| a.def_id);
                let Some(m) = m else { return obj! {"error" => s("no such method")} };
                let mut it = q.get("args").unwrap().arr().iter();
                let mut fail = false;
                let args = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => match it.next().and_then(|x| x.num()) {
                        Some(k) => self.tys[k as usize].0.into(),
                        None => {
                            fail = true;
                            tcx.types.unit.into()
                        }
                    },
                });
                if fail {
                    return obj! {"error" => s("args")};
                }
                let te = self.envs[env];
                let i = if provided {
                    Some(Instance { def: InstanceKind::Item(m), args })
                } else {
                    Instance::try_resolve(tcx, te, m, args).ok().flatten()
                };
                match i {
                    Some(i) => {
                        let i = self.inst(i, env);
                        obj! {"inst" => n(i as u64)}
                    }
                    None => obj! {"inst" => J::Null},
                }
            }
            // does `ty: Trait<args>` hold in the environment of a definition plus extra bounds
            "holds" => {
                let d = self.defs[num("d").unwrap()];
                let extra = q.get("extra").map(|x| x.arr().to_vec()).unwrap_or_default();
                let Some(te) = self.env_with(d, &extra) else {
                    return obj! {"error" => s("bad bounds")};
                };
                let Some(tr) = q.get("trait").and_then(|p| p.str()).and_then(|p| self.lookup(p)) else {
                    return obj! {"error" => s("trait not found")};
                };
                let t = match q.get("ty") {
                    Some(J::Str(x)) if x == "out" => {
                        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                        tcx.instantiate_bound_regions_with_erased(sig).output()
                    }
                    Some(J::Num(k)) => self.tys[*k as usize].0,
                    Some(J::Str(x)) if x.starts_with("param:") => match self.param_of(d, &x[6..]) {
                        Some(t) => t,
                        None => return obj! {"error" => s("no such parameter")},
                    },
                    _ => match tcx.def_kind(d) {
                        DefKind::Struct | DefKind::Enum | DefKind::Union => tcx.type_of(d).instantiate_identity().skip_norm_wip(),
                        _ => return obj! {"error" => s("ty")},
                    },
                };
                let t = tcx.erase_and_anonymize_regions(t);
                let t = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                let mut v: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
                for x in q.get("targs").map(|x| x.arr().to_vec()).unwrap_or_default() {
                    if let Some(k) = x.num() {
                        v.push(self.tys[k as usize].0.into());
                    }
                }
                let r = infcx.type_implements_trait(tr, v, pe);
                obj! {"holds" => J::Bool(r.must_apply_modulo_regions()), "may" => J::Bool(r.may_apply()), "s" => s(self.ty_str(t))}
            }
            _ => obj! {"error" => s("unknown op")},
        }
    }
}
