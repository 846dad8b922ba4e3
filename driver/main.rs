//! MIR extraction driver. Invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
//! It only *reads* the type-checked program: it dumps types, ADTs, impls and the MIR of every local
//! body as JSON to $VP_OUT/<crate>-<kind>.json and then lets compilation continue (metadata only).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        ))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", js(&f), lo.line)
    }
    fn line(&self, s: rustc_span::Span) -> usize {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        sm.lookup_char_pos(s.lo()).line
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                v.push(js(&format!("const {c:?}")));
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, idx);
        let s = match t.kind() {
            TyKind::Adt(d, a) => {
                self.adt(*d);
                let ar = self.gargs(a);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", js(&self.path(d.did())), ar)
            }
            TyKind::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), i)
            }
            TyKind::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), i)
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tup\",\"a\":{}}}", arr(v))
            }
            TyKind::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            TyKind::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            TyKind::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or(ty::List::empty());
                let ar = self.gargs(a);
                format!("{{\"k\":\"fndef\",\"p\":{},\"a\":{}}}", js(&self.path(*d)), ar)
            }
            TyKind::Closure(d, a) => {
                let ar = { let pa = self.tcx.mk_args(a.as_closure().parent_args()); self.gargs(pa) };
                format!("{{\"k\":\"closure\",\"p\":{},\"a\":{}}}", js(&self.path(*d)), ar)
            }
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            TyKind::Alias(..) => {
                format!("{{\"k\":\"alias\",\"s\":{}}}", js(&self.tystr(t)))
            }
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", js(&self.tystr(t))),
        };
        self.types[idx] = s;
        idx
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(format!("{t}"))
        ))
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let p = self.path(d.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        let discrs: Vec<String> = if d.is_enum() {
            d.discriminants(self.tcx).map(|(_, x)| format!("{}", x.val as i128)).collect()
        } else {
            vec!["0".into()]
        };
        for (i, v) in d.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if d.did().is_local() || self.interesting(d.did()) {
                    let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(ft).to_string()
                } else {
                    "null".into()
                };
                let vis = format!("{:?}", f.vis);
                fs.push(format!("{{\"n\":{},\"t\":{},\"v\":{}}}", js(f.name.as_str()), t, js(&vis)));
            }
            let disc = discrs.get(i.as_usize()).cloned().unwrap_or("0".into());
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), disc, arr(fs)));
        }
        let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        let s = format!(
            "{{\"kind\":{},\"local\":{},\"vis\":{},\"span\":{},\"variants\":{}}}",
            js(kind),
            d.did().is_local(),
            js(&format!("{:?}", self.tcx.visibility(d.did()))),
            self.span(self.tcx.def_span(d.did())),
            arr(vs)
        );
        self.adts.insert(p, s);
    }
    fn interesting(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        n.as_str() == "jagua_rs" || n.as_str() == "lbf"
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let (name, owner) = match cur.ty.kind() {
                        TyKind::Adt(d, _) => {
                            let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (d.variant(vi).fields[f].name.to_string(), js(&self.path(d.did())))
                        }
                        _ => (f.as_usize().to_string(), "null".to_string()),
                    };
                    format!("[\"f\",{},{},{},{}]", js(&name), f.as_usize(), self.ty(t), owner)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match cur.ty.kind() {
                        TyKind::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("[\"d\",{}]", js(&name))
                }
                _ => "[\"?\"]".to_string(),
            };
            out.push(s);
            cur = cur.projection_ty(tcx, e);
        }
        let t = self.ty(cur.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(out), t)
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or(ty::List::empty());
            return self.fnref(env, *d, a, ti);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let ar = self.gargs(u.args);
            let _ = write!(extra, ",\"u\":{},\"ua\":{}", js(&self.path(u.def)), ar);
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"prom\":{}", p.as_usize());
            }
        }
        if let Const::Val(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(did) = tcx.global_alloc(p.provenance.alloc_id()) {
                if !tcx.is_mutable_static(did) {
                    let _ = write!(extra, ",\"u\":{},\"ua\":[]", js(&self.path(did)));
                }
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(extra, ",\"ct\":{}", js(&format!("{ct:?}")));
        }
        // scalars
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        if !generic {
            match t.kind() {
                TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char | TyKind::Float(_) => {
                    if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                        let size = s.size();
                        let bits = s.to_bits(size);
                        let v = match t.kind() {
                            TyKind::Bool => (bits != 0).to_string(),
                            TyKind::Int(_) => size.sign_extend(bits).to_string(),
                            TyKind::Float(ty::FloatTy::F32) => {
                                js(&format!("{:?}", f32::from_bits(bits as u32)))
                            }
                            TyKind::Float(ty::FloatTy::F64) => {
                                js(&format!("{:?}", f64::from_bits(bits as u64)))
                            }
                            _ => bits.to_string(),
                        };
                        return format!("{{\"c\":{},\"t\":{}{}}}", v, ti, extra);
                    }
                }
                TyKind::Ref(_, inner, _) if inner.is_str() => {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"c\":{},\"str\":true,\"t\":{}{}}}", js(&String::from_utf8_lossy(b)), ti, extra);
                        }
                    }
                }
                _ => {}
            }
        }
        format!("{{\"k\":{},\"t\":{}{}}}", js(&format!("{}", c.const_)), ti, extra)
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, ti: usize) -> String {
        let tcx = self.tcx;
        let ar = self.gargs(a);
        let mut s = format!("{{\"fn\":{},\"a\":{},\"t\":{}", js(&self.path(d)), ar, ti);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{},\"m\":{}", js(&self.path(tr)), js(tcx.item_name(d).as_str()));
        }
        let ra = tcx.erase_and_anonymize_regions(a);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ra) {
                if inst.def_id() != d {
                    let ar = self.gargs(inst.args);
                    let _ = write!(s, ",\"r\":{},\"ra\":{}", js(&self.path(inst.def_id())), ar);
                }
            }
        }
        if let DefKind::Ctor(_, _) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            let _ = write!(s, ",\"ctor\":{}", js(&self.path(v)));
            let (adt, vn) = if tcx.def_kind(v) == DefKind::Variant {
                (tcx.parent(v), tcx.item_name(v).to_string())
            } else {
                (v, tcx.item_name(v).to_string())
            };
            let _ = write!(s, ",\"ca\":{},\"cv\":{}", js(&self.path(adt)), js(&vn));
        }
        s.push('}');
        s
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => self.place(body, p),
            Operand::Move(p) => {
                let mut s = self.place(body, p);
                s.pop();
                s.push_str(",\"mv\":1}");
                s
            }
            Operand::Constant(c) => self.constant(env, c),
            Operand::RuntimeChecks(_) => {
                format!("{{\"c\":false,\"t\":{}}}", self.ty(self.tcx.types.bool))
            }
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(env, body, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shr",
                };
                format!("[\"ref\",{},{}]", js(m), self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", js(&format!("{k:?}")), self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let kk = match k {
                    CastKind::PointerCoercion(c, _) => format!("pc:{c:?}"),
                    k => format!("{k:?}"),
                };
                format!("[\"cast\",{},{},{}]", js(&kk), self.operand(env, body, o), t)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{op:?}")),
                self.operand(env, body, &b.0),
                self.operand(env, body, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(env, body, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tup\"}".to_string(),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        let ar = self.gargs(a);
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"a\":{}}}",
                            js(&self.path(*d)),
                            js(ad.variant(*vi).name.as_str()),
                            ar
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"p\":{}}}", js(&self.path(*d)))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!(
                "[\"ref\",{},{}]",
                js(if m.is_mut() { "mut" } else { "shr" }),
                self.place(body, p)
            ),
            other => format!("[\"other\",{}]", js(&format!("{other:?}"))),
        }
    }
    fn body(&mut self, def: LocalDefId, name: &str, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{},{}]", t, js(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect::<Vec<_>>();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let l = self.line(s.source_info.span);
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(env, body, &b.1);
                        st.push(format!("[{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let l = self.line(s.source_info.span);
                        let p = self.place(body, place);
                        st.push(format!("[{},[\"setdiscr\",{}],{}]", p, variant_index.as_usize(), l));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let l = self.line(term.source_info.span);
            let exp = if term.source_info.span.from_expansion() {
                let d = term.source_info.span.ctxt().outer_expn_data();
                js(&format!("{}", d.kind.descr()))
            } else {
                "null".to_string()
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let signed = match ty.kind() {
                        TyKind::Int(_) => true,
                        _ => false,
                    };
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed { format!("{}", v as i128) } else { v.to_string() };
                            format!("[{},{}]", vs, b.as_usize())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},{},{}]",
                        self.operand(env, body, discr),
                        arr(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(env, body, cond),
                        expected,
                        target.as_usize(),
                        js(m)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"x\":{}}}", arr(st), t, l, exp));
        }
        let d = def.to_def_id();
        let vis = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => format!("{:?}", tcx.visibility(d)),
            _ => "n/a".into(),
        };
        let mut extra = String::new();
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(extra, ",\"impl_self\":{}", st);
            if matches!(tcx.def_kind(imp), DefKind::Impl { of_trait: true }) {
                let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                let ar = self.gargs(tr.args);
                let _ = write!(extra, ",\"impl_trait\":{},\"impl_targs\":{}", js(&self.path(tr.def_id)), ar);
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"in_trait\":{}", js(&self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && kind != "promoted" {
            let g = tcx.generics_of(tcx.typeck_root_def_id(d));
            let mut v = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(js(p.name.as_str()));
                }
            }
            let _ = write!(extra, ",\"generics\":{}", arr(v));
            let _ = write!(extra, ",\"inunsafe\":{}", matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe());
        }
        if tcx.is_closure_like(d) {
            let caps = tcx.closure_captures(def);
            let v: Vec<String> = caps.iter().map(|c| {
                let k = match c.info.capture_kind {
                    ty::UpvarCapture::ByValue => "val",
                    ty::UpvarCapture::ByRef(ty::BorrowKind::Immutable) => "shr",
                    _ => "mut",
                };
                format!("[{},{}]", js(&c.to_symbol().to_string()), js(k))
            }).collect();
            let _ = write!(extra, ",\"caps\":{},\"parent\":{}", arr(v), js(&self.path(tcx.local_parent(def).to_def_id())));
        }
        let item = match tcx.def_kind(d) {
            DefKind::Closure => "{closure}".to_string(),
            _ => tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default(),
        };
        let from_exp = tcx.def_span(d).from_expansion();
        format!(
            "{}:{{\"kind\":{},\"item\":{},\"exp\":{},\"vis\":{},\"span\":{},\"argc\":{},\"locals\":{},\"blocks\":{}{}}}",
            js(name),
            js(kind),
            js(&item),
            from_exp,
            js(&vis),
            self.span(tcx.def_span(d)),
            body.arg_count,
            arr(locals),
            arr(blocks),
            extra
        )
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        let o = &mut config.opts;
        o.debug_assertions = false;
        o.cg.debug_assertions = Some(false);
        o.cg.overflow_checks = Some(false);
        o.unstable_opts.mir_opt_level = Some(0);
        o.unstable_opts.inline_mir = Some(false);
        o.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let bin = tcx.entry_fn(()).is_some();
        let mut d = Dump { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new() };
        let mut fns = vec![];
        let mut unsafe_ct = 0usize;
        for def in tcx.mir_keys(()).iter().copied() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            let name = d.path(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    fns.push(d.body(def, &name, b, if kind == DefKind::Closure { "closure" } else { "fn" }));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(did);
                    fns.push(d.body(def, &name, b, "const"));
                }
                _ => continue,
            }
            for (i, b) in tcx.promoted_mir(did).iter_enumerated() {
                let n = format!("{}::promoted[{}]", name, i.as_usize());
                fns.push(d.body(def, &n, b, "promoted"));
            }
            unsafe_ct += 0;
        }
        let _ = unsafe_ct;
        // local ADTs and trait impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    d.ty(t);
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = d.ty(tr.self_ty());
                    let ar = d.gargs(tr.args);
                    let mut ms = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if let Some(n) = it.opt_name() {
                            ms.push(format!("{}:{}", js(n.as_str()), js(&d.path(it.def_id))));
                        }
                    }
                    impls.push(format!(
                        "{{\"tr\":{},\"self\":{},\"a\":{},\"m\":{{{}}},\"exp\":{},\"span\":{}}}",
                        js(&d.path(tr.def_id)), st, ar, ms.join(","),
                        tcx.def_span(did).from_expansion(), d.span(tcx.def_span(did))
                    ));
                }
                _ => {}
            }
        }
        let adts = d.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n");
        let s = format!(
            "{{\"crate\":{},\"bin\":{},\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\n\"fns\":{{{}}}}}\n",
            js(&krate), bin, d.types.join(",\n"), adts, impls.join(",\n"), fns.join(",\n")
        );
        let f = format!("{}/{}{}.json", out, krate, if bin { "-bin" } else { "" });
        std::fs::write(&f, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_dump = args.iter().any(|a| a == "--crate-name");
    let early = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    struct N;
    impl Callbacks for N {}
    rustc_driver::catch_with_exit_code(|| {
        if is_dump && !early {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut N)
        }
    })
}
