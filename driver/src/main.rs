//! Dumps what the compiler knows about the crate under analysis as JSON: the MIR of every body
//! (as built from the type-checked program, before borrow check and before coroutine lowering)
//! with resolved callees, evaluated constants and types, the ADTs, trait impls, statics, unsafe
//! code, and where interior mutability can be reached.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyids: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tyids.insert(t, id);
        let s = esc(&self.tystr(t));
        let args_of = |me: &mut Self, a: ty::GenericArgsRef<'tcx>| -> String {
            let v: Vec<String> = a.types().map(|x| me.ty(x).to_string()).collect();
            arr(v)
        };
        let body = match t.kind() {
            ty::Adt(d, a) => {
                let p = esc(&self.path(d.did()));
                let local = d.did().is_local();
                format!("\"k\":\"adt\",\"p\":{},\"a\":{},\"local\":{}", p, args_of(self, a), local)
            }
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*x)),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*x)),
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"d\":{},\"a\":{}", esc(&self.path(*d)), arr(ups))
            }
            ty::Coroutine(d, a) => {
                let ups: Vec<String> = a.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"coroutine\",\"d\":{},\"a\":{}", esc(&self.path(*d)), arr(ups))
            }
            ty::FnDef(d, a) => {
                let p = esc(&self.path(*d));
                format!("\"k\":\"fndef\",\"d\":{},\"a\":{}", p, args_of(self, a.skip_binder()))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(preds, _) => {
                let v: Vec<String> = preds
                    .iter()
                    .filter_map(|p| match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => Some(esc(&self.path(t.def_id))),
                        _ => None,
                    })
                    .collect();
                format!("\"k\":\"dyn\",\"t\":{}", arr(v))
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*x)),
            ty::Array(x, _) => format!("\"k\":\"array\",\"t\":{}", self.ty(*x)),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => "\"k\":\"prim\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[id] = format!("{{\"s\":{},{}}}", s, body);
        id
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if let Some(fd) = d.variants().get(vi).and_then(|x| x.fields.get(f)) {
                            name = fd.name.to_string();
                        }
                    }
                    format!("[\"f\",{},{}]", f.as_usize(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"ci\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, i) => {
                    format!("[\"v\",{},{}]", i.as_usize(), esc(&n.map(|x| x.to_string()).unwrap_or_default()))
                }
                _ => "[\"x\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        arr(v)
    }

    fn callee(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let targs: Vec<String> = a.types().map(|x| self.ty(x).to_string()).collect();
        let mut s = format!("\"def\":{},\"targs\":{},\"local\":{}", esc(&self.path(d)), arr(targs), d.is_local());
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{},\"name\":{}", esc(&self.path(t)), esc(tcx.item_name(d).as_str()));
            let selfty = a.type_at(0);
            let _ = write!(s, ",\"self\":{}", self.ty(selfty));
        }
        let generic_names: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| esc(p.name.as_str()))
            .collect();
        let _ = write!(s, ",\"gnames\":{}", arr(generic_names));
        let erased = tcx.erase_and_anonymize_regions(a);
        if !erased.has_escaping_bound_vars() {
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, erased) {
                let rd = i.def_id();
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let rargs: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
                let mut names = vec![];
                let mut g = Some(tcx.generics_of(rd));
                let mut chain = vec![];
                while let Some(x) = g {
                    chain.push(x);
                    g = x.parent.map(|p| tcx.generics_of(p));
                }
                for x in chain.iter().rev() {
                    for p in &x.own_params {
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            names.push(esc(p.name.as_str()));
                        }
                    }
                }
                let _ = write!(
                    s,
                    ",\"res\":{},\"reslocal\":{},\"reskind\":\"{}\",\"resargs\":{},\"resnames\":{}",
                    esc(&self.path(rd)), rd.is_local(), kind, arr(rargs), arr(names)
                );
            }
        }
        s
    }

    fn constant(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut s = format!("{{\"o\":\"k\",\"ty\":{}", tid);
        if let ty::FnDef(d, a) = t.kind() {
            let _ = write!(s, ",\"fn\":{{{}}}", self.callee(env, *d, a.skip_binder()));
            s.push('}');
            return s;
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            let _ = write!(s, ",\"path\":{}", esc(&self.path(uv.def)));
            if uv.promoted.is_some() {
                s.push_str(",\"promoted\":true");
            }
        }
        let generic = c.const_.has_param();
        if !generic {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let v = match t.kind() {
                    ty::Char => char::from_u32(sc.to_u32()).map(|x| esc(&x.to_string())).unwrap_or("null".into()),
                    ty::Bool => (if sc.is_null() { "false" } else { "true" }).to_string(),
                    ty::Int(_) => sc.to_int(sc.size()).to_string(),
                    _ => sc.to_bits(sc.size()).to_string(),
                };
                let _ = write!(s, ",\"val\":{}", v);
            } else if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                if is_str {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                } else {
                    let p = with_no_trimmed_paths!(mir::Const::Val(v, t).to_string());
                    let _ = write!(s, ",\"repr\":{}", esc(&p));
                }
            }
        }
        s.push('}');
        s
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"c\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"m\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, c),
            _ => "{\"o\":\"rt\"}".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let n = with_no_trimmed_paths!(n.to_string());
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(body, env, o), esc(&n))
            }
            Rvalue::Ref(_, k, p) => {
                let fake = matches!(k, BorrowKind::Fake(_));
                format!(
                    "{{\"r\":\"ref\",\"m\":{},\"fake\":{},\"p\":{}}}",
                    matches!(k, BorrowKind::Mut { .. }), fake, self.place(body, p)
                )
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"reborrow\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"m\":true,\"raw\":true,\"p\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)), self.operand(body, env, o), self.ty(*t)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                op, self.operand(body, env, &ab.0), self.operand(body, env, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(body, env, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                // value -> variant name
                let mut vs = vec![];
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        for (i, v) in d.discriminants(self.tcx) {
                            vs.push(format!("[{},{}]", v.val, esc(d.variant(i).name.as_str())));
                        }
                    }
                }
                format!("{{\"r\":\"discr\",\"p\":{},\"vs\":{}}}", self.place(body, p), arr(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"ak\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"enum\":{},\"fn\":{}",
                            esc(&self.path(*d)), vi.as_usize(), esc(var.name.as_str()), def.is_enum(), arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"ak\":\"closure\",\"p\":{}", esc(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) => format!("\"ak\":\"coroutine\",\"p\":{}", esc(&self.path(*d))),
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("\"ak\":\"coroutineclosure\",\"p\":{}", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":{}}}", ks, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"c\",\"p\":{}}}}}", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"p\":{}}}", esc(&self.path(*d))),
            _ => "{\"r\":\"other\"}".into(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, l.line)
    }

    fn body(&mut self, ld: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let n = names.get(&l.as_usize()).map(|x| esc(x)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = esc(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(format!(
                            "{{\"s\":\"=\",\"p\":{},\"v\":{},\"l\":{}}}",
                            self.place(body, p), self.rvalue(body, env, r), line
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "{{\"s\":\"sd\",\"p\":{},\"v\":{},\"l\":{}}}",
                        self.place(body, place), variant_index.as_usize(), line
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"x\":{}}}", l.as_usize())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(body, tcx);
                    format!(
                        "\"t\":\"switch\",\"a\":{},\"vals\":{},\"else\":{},\"ty\":{}",
                        self.operand(body, env, discr), arr(v), targets.otherwise().as_usize(), self.ty(dt)
                    )
                }
                TerminatorKind::Return => "\"t\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"t\":\"resume\"".into(),
                TerminatorKind::Drop { place, target, replace, .. } => format!(
                    "\"t\":\"drop\",\"p\":{},\"to\":{},\"replace\":{}",
                    self.place(body, place), target.as_usize(), replace
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let dt = destination.ty(body, tcx).ty;
                    format!(
                        "\"t\":\"call\",\"f\":{},\"args\":{},\"d\":{},\"dty\":{},\"to\":{}",
                        self.operand(body, env, func), arr(a), self.place(body, destination), self.ty(dt),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    format!("\"t\":\"tailcall\",\"f\":{},\"args\":{}", self.operand(body, env, func), arr(a))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(body, env, len), self.operand(body, env, index)])
                        }
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(body, env, a)]),
                        AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) | AssertKind::ResumedAfterDrop(_) => {
                            ("resumed".into(), vec![])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "\"t\":\"assert\",\"a\":{},\"exp\":{},\"kind\":{},\"ops\":{},\"to\":{}",
                        self.operand(body, env, cond), expected, esc(&k), arr(ops), target.as_usize()
                    )
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                    "\"t\":\"yield\",\"a\":{},\"to\":{},\"ra\":{}",
                    self.operand(body, env, value), resume.as_usize(), self.place(body, resume_arg)
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::CoroutineDrop => "\"t\":\"resume\"".into(),
                TerminatorKind::InlineAsm { .. } => "\"t\":\"asm\"".into(),
            };
            blocks.push(format!(
                "{{\"st\":{},\"term\":{{{},\"l\":{}}},\"cleanup\":{}}}",
                arr(st), t, line, bb.is_cleanup
            ));
        }
        let kind = if tcx.is_coroutine(d) {
            "coroutine"
        } else if tcx.is_closure_like(d) {
            "closure"
        } else {
            match tcx.def_kind(d) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => "ctor",
                _ => "other",
            }
        };
        let mut extra = String::new();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|x| esc(&self.tystr(*x))).collect();
            let out = esc(&self.tystr(sig.output()));
            let vis = if tcx.visibility(d).is_public() { "true" } else { "false" };
            let _ = write!(extra, ",\"inputs\":{},\"output\":{},\"pub\":{},\"exported\":{}", arr(ins), out, vis, tcx.effective_visibilities(()).is_reachable(ld));
            if let Some(p) = tcx.trait_impl_of_assoc(d) {
                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                let _ = write!(
                    extra,
                    ",\"impl_trait\":{},\"impl_self\":{}",
                    esc(&self.path(tr.def_id)), self.ty(tr.self_ty())
                );
            } else if let Some(p) = tcx.inherent_impl_of_assoc(d) {
                let t = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_self\":{}", self.ty(t));
            } else if let Some(p) = tcx.trait_of_assoc(d) {
                let _ = write!(extra, ",\"default_of\":{}", esc(&self.path(p)));
            }
        }
        if tcx.is_typeck_child(d) {
            let _ = write!(extra, ",\"parent\":{}", esc(&self.path(tcx.parent(d))));
        }
        // captured variables, in field order
        if tcx.is_closure_like(d) {
            let ups: Vec<String> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| esc(&c.to_symbol().to_string()))
                .collect();
            let _ = write!(extra, ",\"captures\":{}", arr(ups));
            let mut cells = vec![];
            for c in tcx.closure_captures(ld) {
                self.cells(c.place.ty(), c.to_symbol().to_string(), &mut vec![], &mut cells);
            }
            let cells: Vec<String> = cells.iter().map(|x| esc(x)).collect();
            let _ = write!(extra, ",\"capcells\":{}", arr(cells));
        }
        format!(
            "{{\"name\":{},\"kind\":\"{}\",\"argc\":{},\"span\":{},\"locals\":{},\"blocks\":{}{}}}",
            esc(&self.path(d)), kind, body.arg_count, esc(&self.span(tcx.def_span(d))), arr(locals), arr(blocks), extra
        )
    }

    /// Paths to interior mutability inside a type. `dyn` objects and type parameters are user code.
    fn cells(&self, t: Ty<'tcx>, at: String, seen: &mut Vec<Ty<'tcx>>, out: &mut Vec<String>) {
        if seen.contains(&t) || seen.len() > 400 {
            return;
        }
        seen.push(t);
        match t.kind() {
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let crate_name = self.tcx.crate_name(d.did().krate).to_string();
                let is_std = matches!(crate_name.as_str(), "std" | "core" | "alloc" | "hashbrown");
                // a body belongs to the one request or response it is part of; Bytes are immutable
                if crate_name == "hyper" && p.ends_with("::Body") || crate_name == "bytes" {
                    return;
                }
                let celly = p.contains("::cell::") || p.contains("::sync::Mutex") || p.contains("::sync::RwLock")
                    || p.contains("::sync::atomic::") || p.contains("OnceLock") || p.contains("LazyLock")
                    || p.contains("::sync::mpsc") || p.contains("::sync::Condvar") || p.contains("::sync::Barrier")
                    || p.contains("::thread::") || p.contains("::sync::poison::") || p.contains("::sync::Once");
                // computed once from nothing but its initialiser
                if p.ends_with("::LazyLock") || p.ends_with("::LazyCell") {
                    if let Some(x) = a.types().next() {
                        self.cells(x, format!("{}<>", at), seen, out);
                    }
                    return;
                }
                if celly || d.is_unsafe_cell() {
                    out.push(format!("{}: {}", at, self.tystr(t)));
                    return;
                }
                for x in a.types() {
                    self.cells(x, format!("{}<>", at), seen, out);
                }
                if !is_std {
                    for f in d.all_fields() {
                        let ft = f.ty(self.tcx, a).skip_norm_wip();
                        self.cells(ft, format!("{}.{}", at, f.name), seen, out);
                    }
                }
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Slice(x) | ty::Array(x, _) => {
                self.cells(*x, format!("{}*", at), seen, out)
            }
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    self.cells(x, at.clone(), seen, out)
                }
            }
            _ => {}
        }
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, rustc_span::Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // unsafe inside the expansion of another crate's macro is that crate's
            if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}

struct Cb {
    out: String,
    tag: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // Clone every body before anything can steal it.
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        // Nested bodies first: building the outer one may consume them.
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.reverse();
        // Constants may be evaluated, and so consumed, while other bodies are checked.
        let is_const = |d: LocalDefId| tcx.hir_body_const_context(d).is_some();
        owners.sort_by_key(|d| !is_const(*d));
        let mut missing = vec![];
        for d in owners {
            let st = tcx.mir_built(d);
            if !st.is_stolen() {
                let b = st.borrow().clone();
                bodies.push((d, b));
            } else if is_const(d) {
                bodies.push((d, tcx.mir_for_ctfe(d).clone()));
            } else {
                missing.push(d);
            }
        }
        bodies.sort_by_key(|(d, _)| d.local_def_index);
        let mut dump = Dump { tcx, types: vec![], tyids: HashMap::new() };
        let mut bs = vec![];
        for (d, b) in &bodies {
            bs.push(dump.body(*d, b));
        }
        // ADTs
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut uns = vec![];
        let mut v = UnsafeVisitor { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        for (k, s) in v.found {
            uns.push(format!("[{},{},{}]", esc(&k), esc(&dump.span(s)), s.from_expansion()));
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for var in def.variants() {
                        let mut fs = vec![];
                        for f in &var.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()), dump.ty(ft), f.vis.is_public()
                            ));
                        }
                        vs.push(format!("[{},{}]", esc(var.name.as_str()), arr(fs)));
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut cells = vec![];
                    dump.cells(t, dump.path(d), &mut vec![], &mut cells);
                    let cells: Vec<String> = cells.iter().map(|x| esc(x)).collect();
                    adts.push(format!(
                        "{{\"p\":{},\"variants\":{},\"cells\":{},\"span\":{},\"union\":{}}}",
                        esc(&dump.path(d)), arr(vs), arr(cells), esc(&dump.span(tcx.def_span(d))), def.is_union()
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let mut ms = vec![];
                    for i in tcx.associated_item_def_ids(d) {
                        ms.push(format!("[{},{}]", esc(tcx.opt_item_name(*i).map(|x| x.to_string()).unwrap_or_default().as_str()), esc(&dump.path(*i))));
                    }
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        let h = tcx.impl_trait_header(d);
                        if h.safety.is_unsafe() {
                            uns.push(format!("[\"unsafe impl\",{},{}]", esc(&dump.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                        }
                        esc(&dump.path(tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().def_id))
                    } else {
                        "null".into()
                    };
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"methods\":{},\"span\":{}}}",
                        tr, dump.ty(st), arr(ms), esc(&dump.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut cells = vec![];
                    dump.cells(t, dump.path(d), &mut vec![], &mut cells);
                    let cells: Vec<String> = cells.iter().map(|x| esc(x)).collect();
                    let tls = tcx.is_thread_local_static(d);
                    if mutability.is_mut() {
                        uns.push(format!("[\"static mut\",{},{}]", esc(&dump.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                    }
                    statics.push(format!(
                        "{{\"p\":{},\"mut\":{},\"tls\":{},\"ty\":{},\"cells\":{},\"span\":{}}}",
                        esc(&dump.path(d)), mutability.is_mut(), tls, dump.ty(t), arr(cells), esc(&dump.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ts = dump.tystr(t);
                    if ts.contains("LocalKey") {
                        statics.push(format!(
                            "{{\"p\":{},\"mut\":false,\"tls\":true,\"ty\":{},\"cells\":[],\"span\":{}}}",
                            esc(&dump.path(d)), dump.ty(t), esc(&dump.span(tcx.def_span(d)))
                        ));
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    if sig.safety().is_unsafe() {
                        uns.push(format!("[\"unsafe fn\",{},{}]", esc(&dump.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                    }
                }
                DefKind::ForeignMod => {
                    uns.push(format!("[\"foreign items\",{},{}]", esc(&dump.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                }
                DefKind::Trait => {
                    if tcx.trait_def(d).safety.is_unsafe() {
                        uns.push(format!("[\"unsafe trait\",{},{}]", esc(&dump.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                    }
                }
                _ => {}
            }
        }
        let s = format!(
            "{{\"tag\":{},\"debug_assertions\":{},\"types\":{},\"bodies\":{},\"adts\":{},\"impls\":{},\"statics\":{},\"unsafe\":{},\"missing\":{}}}",
            esc(&self.tag), tcx.sess.opts.debug_assertions, arr(dump.types.clone()), arr(bs), arr(adts), arr(impls), arr(statics), arr(uns),
            arr(missing.iter().map(|d| esc(&dump.path(d.to_def_id()))).collect())
        );
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

fn run(args: &[String], cb: &mut (dyn Callbacks + Send)) {
    if rustc_driver_impl::catch_fatal_errors(|| rustc_driver_impl::compiler_entrypoint(args, cb)).is_err() {
        std::process::exit(1);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo: wrapper rustc args..
    args.remove(0);
    let crate_name = args.iter().position(|x| x == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let target = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    if crate_name == target && is_lib && !out.is_empty() && !args.iter().any(|x| x == "--test") {
        // the release configuration first (its metadata is overwritten), then the regular one
        let mut rel = args.clone();
        rel.push("-Cdebug-assertions=off".into());
        let o = format!("{}.release.json", out);
        let mut cb = Cb { out: o, tag: "release".into() };
        run(&rel, &mut cb);
        let o = format!("{}.dev.json", out);
        let mut cb = Cb { out: o, tag: "dev".into() };
        run(&args, &mut cb);
    } else {
        struct No;
        impl Callbacks for No {}
        run(&args, &mut No);
    }
}
