//! mirdump: a rustc wrapper which dumps the type-checked program of one crate
//! (MIR of every body, ADTs, traits, impls, signatures) as JSON.
//! It never runs any code of the crate; it only serialises what the compiler knows.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn uid(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn euid(&self, d: DefId) -> String {
        esc(&self.uid(d))
    }
    fn path(&self, d: DefId) -> String {
        esc(&self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(format!("{}", self.ty(t)));
            } else if let Some(c) = g.as_const() {
                v.push(format!("{{\"const\":{}}}", esc(&format!("{}", c))));
            } else {
                v.push("null".into());
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, i);
        let s = esc(&format!("{}", t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", esc(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"int\",\"n\":{}", esc(x.name_str())),
            ty::Float(x) => format!("\"k\":\"float\",\"n\":{}", esc(x.name_str())),
            ty::Adt(d, a) => {
                let aa = self.args(a);
                format!("\"k\":\"adt\",\"d\":{},\"a\":{}", self.euid(d.did()), aa)
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Array(e, n) => {
                let ee = self.ty(*e);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", ee, esc(&format!("{}", n)))
            }
            ty::Slice(e) => {
                let ee = self.ty(*e);
                format!("\"k\":\"slice\",\"e\":{}", ee)
            }
            ty::RawPtr(e, m) => {
                let ee = self.ty(*e);
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", ee, m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let ee = self.ty(*e);
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", ee, m.is_mut())
            }
            ty::FnDef(d, a) => {
                let aa = self.args(a.skip_binder());
                format!("\"k\":\"fndef\",\"d\":{},\"a\":{}", self.euid(*d), aa)
            }
            ty::Closure(d, a) => {
                let kind = format!("{:?}", a.as_closure().kind());
                format!("\"k\":\"closure\",\"d\":{},\"ck\":{}", self.euid(*d), esc(&kind))
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| format!("{}", self.ty(x))).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"i\":{},\"n\":{}", p.index, esc(p.name.as_str())),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.euid(d)).unwrap_or("null".into());
                format!("\"k\":\"dyn\",\"d\":{}", p)
            }
            ty::Alias(_, al) => {
                let a = self.args(al.args);
                let d: DefId = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                format!("\"k\":\"alias\",\"d\":{},\"a\":{}", self.euid(d), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.tys[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, i) => format!(
                    "[\"d\",{},{}]",
                    i.index(),
                    esc(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                ),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }
    fn fn_ref(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let aa = self.args(a);
        let mut s = format!("\"d\":{},\"p\":{},\"a\":{}", self.euid(d), self.path(d), aa);
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{},\"m\":{}", self.euid(tr), esc(self.tcx.item_name(d).as_str()));
        }
        let a2 = self.tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, a2) {
            let k = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                _ => "other",
            };
            let ra = self.args(inst.args);
            let _ = write!(
                s,
                ",\"r\":{},\"rp\":{},\"ra\":{},\"rk\":\"{}\"",
                self.euid(inst.def_id()),
                self.path(inst.def_id()),
                ra,
                k
            );
        }
        format!("{{{}}}", s)
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let k = c.const_;
        let t = k.ty();
        let ti = self.ty(t);
        let mut s = format!("\"t\":{}", ti);
        if let ty::FnDef(d, a) = t.kind() {
            let f = self.fn_ref(env, *d, a.skip_binder());
            let _ = write!(s, ",\"fn\":{}", f);
            return format!("{{{}}}", s);
        }
        if let Const::Unevaluated(u, _) = k {
            let a = self.args(u.args);
            let _ = write!(s, ",\"u\":{},\"ua\":{}", self.euid(u.def), a);
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"prom\":{}", p.index());
            }
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let _ = write!(s, ",\"static\":{}", self.euid(d));
            return format!("{{{}}}", s);
        }
        if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
            if let Some(b) = k.try_eval_bits(self.tcx, env) {
                let v = match t.kind() {
                    ty::Float(ty::FloatTy::F32) => {
                        let f = f32::from_bits(b as u32);
                        if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        let f = f64::from_bits(b as u64);
                        if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
                    }
                    ty::Int(it) => {
                        let size = it.bit_width().unwrap_or(64) as u32;
                        let sh = 128 - size;
                        format!("{}", ((b << sh) as i128) >> sh)
                    }
                    ty::Bool => if b != 0 { "true".into() } else { "false".into() },
                    _ => format!("{}", b),
                };
                let _ = write!(s, ",\"v\":{}", v);
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            if let Ok(v) = k.eval(self.tcx, env, c.span) {
                if matches!(inner.kind(), ty::Str) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                } else if matches!(inner.kind(), ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8))) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let v: Vec<String> = b.iter().map(|x| format!("{}", x)).collect();
                        let _ = write!(s, ",\"bytes\":{}", arr(v));
                    }
                } else if let ty::Array(e, _) = inner.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        let _ = write!(s, ",\"dbg\":{}", esc(&format!("{}", k)));
                    }
                }
            }
        }
        let _ = write!(s, ",\"txt\":{}", esc(&format!("{}", k)));
        format!("{{{}}}", s)
    }
    fn op(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(env, c)),
            Operand::RuntimeChecks(_) => "{\"rt\":1}".into(),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(env, o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(env, o), esc(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = self.ty(o.ty(&body.local_decls, self.tcx));
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(env, o), from, ti)
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = self.ty(ab.0.ty(&body.local_decls, self.tcx));
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", b)),
                    self.op(env, &ab.0),
                    self.op(env, &ab.1),
                    t
                )
            }
            Rvalue::UnaryOp(u, o) => {
                let t = self.ty(o.ty(&body.local_decls, self.tcx));
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", u)), self.op(env, o), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                // discriminant value -> variant index
                let mut m = vec![];
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        for (i, dv) in d.discriminants(self.tcx) {
                            m.push(format!("[{},{}]", dv.val, i.index()));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(p), ti, arr(m))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let aa = self.args(a);
                        format!("[\"adt\",{},{},{}]", self.euid(*d), vi.index(), aa)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", self.euid(*d)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.euid(*d)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let env = TypingEnv::post_analysis(self.tcx, owner);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(match names.get(&l.index()) {
                Some(n) => format!("[{},{}]", t, esc(n)),
                None => format!("[{}]", t),
            });
        }
        let mut blocks = vec![];
        for (_bi, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                blocks.push("null".into());
                continue;
            }
            let mut st = vec![];
            for s in &b.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let rv = self.rvalue(env, body, &x.1);
                        st.push(format!("[\"=\",{},{},{}]", self.place(&x.0), rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.index(), sp));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(ty);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.op(env, discr),
                        ti,
                        arr(v),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pti = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.index(), pti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(env, func);
                    let a: Vec<String> = args.iter().map(|x| self.op(env, &x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            format!("{}", self.ty(t))
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dti = self.ty(dt);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|x| x.index() as i64).unwrap_or(-1),
                        arr(at),
                        dti,
                        esc(&format!("{}", if sp.is_empty() { "" } else { "" }))
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(env, len), self.op(env, index))
                        }
                        AssertKind::Overflow(b, x, y) => format!(
                            "[\"overflow\",{},{},{}]",
                            esc(&format!("{:?}", b)),
                            self.op(env, x),
                            self.op(env, y)
                        ),
                        AssertKind::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.op(env, x)),
                        AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(env, x)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(env, x)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(env, cond), expected, m, target.index())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t.kind))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(st), ts, sp));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"upv\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(upv),
            arr(blocks)
        )
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![String::new(); g.count()];
        let mut cur = Some(g);
        while let Some(g) = cur {
            for p in &g.own_params {
                v[p.index as usize] = esc(p.name.as_str());
            }
            cur = g.parent.map(|p| self.tcx.generics_of(p));
        }
        arr(v)
    }
    fn preds(&mut self, d: DefId) -> String {
        // trait bounds: [self_ty, trait uid, args]
        let mut v = vec![];
        for c in self.tcx.clauses_of(d).instantiate_identity(self.tcx).clauses.into_iter() {
            let c = c.skip_norm_wip();
            if let Some(tp) = c.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                let st = self.ty(tr.self_ty());
                let a = self.args(tr.args);
                v.push(format!("[{},{},{}]", st, self.euid(tr.def_id), a));
            }
        }
        arr(v)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new() };
    let mut bodies = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let eff = tcx.effective_visibilities(());
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let mut vs = vec![];
                for v in ad.variants() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = cx.ty(t);
                            format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()),
                                ti,
                                f.vis.is_public()
                            )
                        })
                        .collect();
                    vs.push(format!("[{},{}]", esc(v.name.as_str()), arr(fs)));
                }
                adts.push(format!(
                    "{{\"d\":{},\"p\":{},\"enum\":{},\"v\":{},\"sp\":{},\"g\":{},\"vis\":{}}}",
                    cx.euid(d),
                    cx.path(d),
                    ad.is_enum(),
                    arr(vs),
                    cx.span(tcx.def_span(d)),
                    cx.generics(d),
                    eff.is_reachable(ld)
                ));
            }
            DefKind::Trait => {
                let ms: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|x| x.is_fn())
                    .map(|x| {
                        format!(
                            "[{},{},{}]",
                            esc(x.name().as_str()),
                            cx.euid(x.def_id),
                            x.defaultness(tcx).has_value()
                        )
                    })
                    .collect();
                let p = cx.preds(d);
                traits.push(format!(
                    "{{\"d\":{},\"p\":{},\"m\":{},\"g\":{},\"preds\":{}}}",
                    cx.euid(d),
                    cx.path(d),
                    arr(ms),
                    cx.generics(d),
                    p
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let mut s = format!("\"d\":{},\"self\":{},\"g\":{}", cx.euid(d), st, cx.generics(d));
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let a = cx.args(tr.args);
                    let _ = write!(s, ",\"tr\":{},\"trp\":{},\"ta\":{}", cx.euid(tr.def_id), cx.path(tr.def_id), a);
                }
                let ms: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|x| x.is_fn())
                    .map(|x| format!("[{},{}]", esc(x.name().as_str()), cx.euid(x.def_id)))
                    .collect();
                let mut at = vec![];
                for x in tcx.associated_items(d).in_definition_order() {
                    if x.is_type() {
                        let t = cx.ty(tcx.type_of(x.def_id).instantiate_identity().skip_norm_wip());
                        at.push(format!("[{},{}]", esc(x.name().as_str()), t));
                    }
                }
                let der = tcx.is_builtin_derived(d);
                let p = cx.preds(d);
                impls.push(format!(
                    "{{{},\"m\":{},\"at\":{},\"derived\":{},\"sp\":{},\"preds\":{}}}",
                    s,
                    arr(ms),
                    arr(at),
                    der,
                    cx.span(tcx.def_span(d)),
                    p
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                statics.push(format!(
                    "{{\"d\":{},\"mut\":{},\"t\":{},\"sp\":{}}}",
                    cx.euid(d),
                    mutability.is_mut(),
                    t,
                    cx.span(tcx.def_span(d))
                ));
            }
            _ => {}
        }
    }
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let (k, b): (&str, &Body<'_>) = match kind {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
            DefKind::Closure => ("closure", tcx.optimized_mir(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => ("const", tcx.mir_for_ctfe(d)),
            _ => continue,
        };
        let bs = cx.body(d, b);
        let mut proms = vec![];
        for (_pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
            let s = cx.body(d, pb);
            proms.push(format!("{{{}}}", s));
        }
        let mut extra = String::new();
        if k == "fn" {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| format!("{}", cx.ty(*t))).collect();
            let o = cx.ty(sig.output());
            let _ = write!(
                extra,
                ",\"sig\":[{},{}],\"unsafe\":{}",
                arr(ins),
                o,
                sig.safety().is_unsafe()
            );
            let p = cx.preds(d);
            let _ = write!(extra, ",\"preds\":{}", p);
            if let Some(im) = tcx.impl_of_assoc(d) {
                let _ = write!(extra, ",\"impl\":{}", cx.euid(im));
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(extra, ",\"trait\":{}", cx.euid(tr));
            }
        } else if k == "closure" {
            let _ = write!(extra, ",\"parent\":{}", cx.euid(tcx.parent(d)));
        }
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        bodies.push(format!(
            "{{\"d\":{},\"p\":{},\"name\":{},\"kind\":\"{}\",\"sp\":{},\"vis\":{},\"g\":{}{},{},\"prom\":{}}}",
            cx.euid(d),
            cx.path(d),
            esc(&name),
            k,
            cx.span(tcx.def_span(d)),
            eff.is_reachable(ld),
            cx.generics(d),
            extra,
            bs,
            arr(proms)
        ));
    }
    // unsafe blocks (HIR)
    let mut un = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            cx: &'a Cx<'tcx>,
            out: Vec<String>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.cx.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                    let o = self.cx.tcx.hir_enclosing_body_owner(b.hir_id).to_def_id();
                    self.out.push(format!("[{},{}]", self.cx.euid(o), self.cx.span(b.span)));
                }
                intravisit::walk_block(self, b)
            }
        }
        let mut v = V { cx: &cx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        un.append(&mut v.out);
    }
    let s = format!(
        "{{\"crate\":{},\"tys\":{},\"adts\":{},\"traits\":{},\"impls\":{},\"statics\":{},\"unsafe\":{},\"bodies\":{}}}",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        arr(std::mem::take(&mut cx.tys)),
        format!("[{}]", adts.join(",\n")),
        format!("[{}]", traits.join(",\n")),
        format!("[{}]", impls.join(",\n")),
        arr(statics),
        arr(un),
        format!("[{}]", bodies.join(",\n"))
    );
    std::fs::write(out, s).expect("write dump");
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(o) = std::env::var("MIRDUMP_OUT") {
            let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
            if tcx.crate_name(LOCAL_CRATE).as_str() == want {
                let _ = mir::MirPhase::Built;
                rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, &o));
            }
        }
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
