//! mirfacts: a rustc driver that dumps the type-checked, resolved MIR of the crate under analysis
//! as JSON facts.  It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//!
//! Env: MIRFACTS_CRATE (crate name to dump), MIRFACTS_OUT (output file),
//!      MIRFACTS_WASM=1 (additionally set cfg target_arch="wasm32" for that crate, so that the
//!      wasm binding modules are part of the analysed program).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_lint_defs;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified, stable printing without trimming or visible re-export paths
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        );
        s
    }
    fn ukey(&self, d: DefId) -> String {
        // unique key: crate + def path data (disambiguates closures and impls)
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", js(&t.to_string()))
            }
            ty::Adt(def, args) => format!(
                "{{\"k\":\"adt\",\"p\":{},\"a\":{}}}",
                js(&self.path(def.did())),
                self.gargs(args)
            ),
            ty::Array(t, n) => format!(
                "{{\"k\":\"array\",\"t\":{},\"n\":{}}}",
                self.ty(*t),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::RawPtr(t, m) => {
                format!("{{\"k\":\"rawptr\",\"t\":{},\"m\":{}}}", self.ty(*t), m.is_mut())
            }
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(*t), m.is_mut()),
            ty::FnDef(d, args) => self.fnref(*d, args.skip_binder()),
            ty::Closure(d, args) => format!(
                "{{\"k\":\"closure\",\"p\":{},\"up\":{}}}",
                js(&self.ukey(*d)),
                arr(args.as_closure().upvar_tys().iter().map(|t| self.ty(t)))
            ),
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(ts.iter().map(|t| self.ty(t)))),
            ty::Param(p) => {
                format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", js(p.name.as_str()), p.index)
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", js(&t.to_string())),
        }
    }
    fn gargs(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        arr(args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"n\":{}}}", js(&c.to_string()))),
            _ => None,
        }))
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "{{\"k\":\"fndef\",\"p\":{},\"u\":{},\"a\":{},\"local\":{}",
            js(&self.path(d)),
            js(&self.ukey(d)),
            self.gargs(args),
            d.is_local()
        );
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let c = assoc.container_id(tcx);
            match tcx.def_kind(c) {
                DefKind::Trait => {
                    let _ = write!(s, ",\"trait\":{},\"name\":{}", js(&self.path(c)), js(tcx.item_name(d).as_str()));
                }
                DefKind::Impl { .. } => {
                    let _ = write!(s, ",\"impl\":{},\"name\":{}", js(&self.ukey(c)), js(tcx.item_name(d).as_str()));
                    let st = tcx.type_of(c).skip_binder();
                    let _ = write!(s, ",\"self_ty\":{}", self.ty(st));
                    if let Some(tr) = tcx.impl_opt_trait_ref(c) {
                        let _ = write!(s, ",\"of_trait\":{}", js(&self.path(tr.skip_binder().def_id.into())));
                    }
                }
                _ => {}
            }
        } else if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"name\":{}", js(n.as_str()));
        }
        s.push('}');
        s
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        let proj = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"deref\"]".to_string(),
            ProjectionElem::Field(f, _) => format!("[\"field\",{}]", f.as_usize()),
            ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                format!("[\"cindex\",{},{}]", offset, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"subslice\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(n, v) => format!(
                "[\"downcast\",{},{}]",
                v.as_usize(),
                js(n.map(|s| s.to_string()).unwrap_or_default().as_str())
            ),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", e))),
        }));
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), proj)
    }
    fn scalar_value(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
            ty::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(bits as u64);
                format!("{{\"float\":{},\"bits\":{},\"w\":64}}", js(&format!("{:?}", f)), bits as u64)
            }
            ty::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(bits as u32);
                format!("{{\"float\":{},\"bits\":{},\"w\":32}}", js(&format!("{:?}", f)), bits as u32)
            }
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64);
                let sh = 128 - w as u32;
                let v = ((bits << sh) as i128) >> sh;
                format!("{{\"int\":{}}}", v)
            }
            ty::Uint(_) => format!("{{\"int\":{}}}", bits),
            ty::Char => format!("{{\"char\":{}}}", bits),
            _ => format!("{{\"bits\":{}}}", bits),
        }
    }
    /// an immutable static without interior mutability is as good as a constant
    fn frozen(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let imm = !matches!(tcx.def_kind(d), DefKind::Static { mutability, .. } if mutability.is_mut());
        imm && !tcx.is_thread_local_static(d)
            && tcx.type_of(d).skip_binder().is_freeze(tcx, ty::TypingEnv::fully_monomorphized())
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut s = format!("{{\"k\":\"const\",\"ty\":{}", self.ty(t));
        if let Some(d) = c.check_static_ptr(tcx) {
            let _ = write!(s, ",\"static\":{},\"freeze\":{}", js(&self.path(d)), self.frozen(d));
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(s, ",\"promoted\":{}", p.as_usize());
                    s.push('}');
                    return s;
                }
                let _ = write!(s, ",\"named\":{}", js(&self.path(u.def)));
                // const fn items of generic impls cannot be evaluated: guard
                if u.args.types().next().is_some() {
                    s.push('}');
                    return s;
                }
            }
            mir::Const::Ty(_, ct) => {
                let _ = write!(s, ",\"tyconst\":{}", js(&ct.to_string()));
            }
            _ => {}
        }
        if matches!(t.kind(), ty::FnDef(..)) {
            s.push('}');
            return s;
        }
        if t.is_scalar() {
            if let Some(bits) = c.const_.try_eval_bits(tcx, env) {
                let _ = write!(s, ",\"v\":{}", self.scalar_value(bits, t));
            }
        } else if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            let is_slice = match t.kind() {
                ty::Ref(_, inner, _) => {
                    inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8)
                }
                _ => false,
            };
            if is_slice && v.try_get_slice_bytes_for_diagnostics(tcx).is_some() {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx).unwrap();
                if let Ok(st) = std::str::from_utf8(b) {
                    let _ = write!(s, ",\"v\":{{\"str\":{}}}", js(st));
                }
            } else if matches!(v, mir::ConstValue::ZeroSized) {
                s.push_str(",\"v\":{\"zst\":true}");
            } else if let ty::Adt(def, _) = t.kind() {
                // small enum constants: read the variant
                if def.is_enum() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        if let Some(vi) = d.variant {
                            let _ = write!(
                                s,
                                ",\"v\":{{\"variant\":{},\"nfields\":{}}}",
                                vi.as_usize(),
                                d.fields.len()
                            );
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn operand(&self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c, env),
            other => format!("{{\"k\":\"otherop\",\"d\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(o, env),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"pl\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}",
                js(&format!("{:?}", k)),
                self.operand(o, env),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                js(&format!("{:?}", op)),
                self.operand(&b.0, env),
                self.operand(&b.1, env)
            ),
            Rvalue::UnaryOp(op, o) => format!(
                "{{\"k\":\"un\",\"op\":{},\"o\":{}}}",
                js(&format!("{:?}", op)),
                self.operand(o, env)
            ),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"pl\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.operand(o, env)));
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"g\":\"array\",\"f\":{}}}", ops),
                    AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"g\":\"tuple\",\"f\":{}}}", ops),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        format!(
                            "{{\"k\":\"agg\",\"g\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"f\":{}}}",
                            js(&self.path(*d)),
                            v.as_usize(),
                            js(def.variant(*v).name.as_str()),
                            ops
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"agg\",\"g\":\"closure\",\"p\":{},\"f\":{}}}", js(&self.ukey(*d)), ops)
                    }
                    _ => format!("{{\"k\":\"agg\",\"g\":\"other\",\"f\":{}}}", ops),
                }
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(p))
            }
            other => format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        loc.line.to_string()
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.file.name.prefer_local_unconditionally())
    }
    fn body(&self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let mut names: std::collections::HashMap<usize, String> = Default::default();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals = arr(b.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "{{\"ty\":{},\"n\":{}}}",
                self.ty(d.ty),
                names.get(&l.as_usize()).map(|s| js(s)).unwrap_or("null".into())
            )
        }));
        let blocks = arr(b.basic_blocks.iter().map(|bb| {
            let stmts = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(a) => Some(format!(
                    "{{\"pl\":{},\"rv\":{},\"ln\":{}}}",
                    self.place(&a.0),
                    self.rvalue(&a.1, env),
                    self.line(s.source_info.span)
                )),
                StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                    "{{\"setdiscr\":{},\"v\":{},\"ln\":{}}}",
                    self.place(place),
                    variant_index.as_usize(),
                    self.line(s.source_info.span)
                )),
                StatementKind::Intrinsic(i) => {
                    Some(format!("{{\"intrinsic\":{}}}", js(&format!("{:?}", i))))
                }
                _ => None,
            }));
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"k\":\"switch\",\"o\":{},\"dty\":{},\"ts\":{},\"else\":{},\"ln\":{}}}",
                    self.operand(discr, env),
                    self.ty(discr.ty(&b.local_decls, self.tcx)),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize()))),
                    targets.otherwise().as_usize(),
                    ln
                ),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"k\":\"resume\"}".into()
                }
                TerminatorKind::Drop { place, target, unwind, .. } => format!(
                    "{{\"k\":\"drop\",\"pl\":{},\"t\":{},\"uw\":{},\"ln\":{}}}",
                    self.place(place),
                    target.as_usize(),
                    uw(unwind),
                    ln
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => format!(
                    "{{\"k\":\"call\",\"f\":{},\"args\":{},\"d\":{},\"t\":{},\"uw\":{},\"ln\":{}}}",
                    self.operand(func, env),
                    arr(args.iter().map(|a| self.operand(&a.node, env))),
                    self.place(destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                    uw(unwind),
                    ln
                ),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => format!(
                    "{{\"k\":\"assert\",\"o\":{},\"e\":{},\"m\":{},\"t\":{},\"uw\":{},\"ln\":{}}}",
                    self.operand(cond, env),
                    expected,
                    js(&format!("{:?}", msg).split('(').next().unwrap_or("")),
                    target.as_usize(),
                    uw(unwind),
                    ln
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                other => format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", other))),
            };
            format!(
                "{{\"s\":{},\"t\":{},\"cleanup\":{}}}",
                stmts, term, bb.is_cleanup
            )
        }));
        format!("{{\"argc\":{},\"locals\":{},\"blocks\":{}}}", b.arg_count, locals, blocks)
    }
    fn dump(&self, out: &str) {
        let tcx = self.tcx;
        let eff = tcx.effective_visibilities(());
        let mut fns = Vec::new();
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn {
                // consts and statics are evaluated where used; record their existence
                fns.push(format!(
                    "{{\"p\":{},\"u\":{},\"kind\":{},\"file\":{},\"ln\":{}}}",
                    js(&self.path(d)),
                    js(&self.ukey(d)),
                    js(&format!("{:?}", kind)),
                    js(&self.file(tcx.def_span(d))),
                    self.line(tcx.def_span(d))
                ));
                continue;
            }
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let body = tcx.optimized_mir(d);
            let promoted = tcx.promoted_mir(d);
            let mut s = format!(
                "{{\"p\":{},\"u\":{},\"kind\":{},\"file\":{},\"ln\":{},\"vis\":{}",
                js(&self.path(d)),
                js(&self.ukey(d)),
                js(&format!("{:?}", kind)),
                js(&self.file(tcx.def_span(d))),
                self.line(tcx.def_span(d)),
                eff.is_reachable(ld)
            );
            if kind != DefKind::Closure {
                let _ = write!(s, ",\"name\":{}", js(tcx.item_name(d).as_str()));
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                let _ = write!(s, ",\"ret\":{}", self.ty(sig.output()));
                let _ = write!(s, ",\"unsafe\":{}", !sig.safety().is_safe());
                let g = tcx.generics_of(d);
                let mut gp = Vec::new();
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if let ty::GenericParamDefKind::Type { synthetic, .. } = p.kind {
                        gp.push(format!(
                            "{{\"n\":{},\"i\":{},\"syn\":{}}}",
                            js(p.name.as_str()),
                            p.index,
                            synthetic
                        ));
                    }
                }
                let _ = write!(s, ",\"generics\":{}", arr(gp));
                if let Some(assoc) = tcx.opt_associated_item(d) {
                    let c = assoc.container_id(tcx);
                    match tcx.def_kind(c) {
                        DefKind::Trait => {
                            let _ = write!(s, ",\"in_trait\":{}", js(&self.path(c)));
                        }
                        DefKind::Impl { .. } => {
                            let st = tcx.type_of(c).skip_binder();
                            let _ = write!(s, ",\"self_ty\":{}", self.ty(st));
                            if let Some(tr) = tcx.impl_opt_trait_ref(c) {
                                let _ = write!(
                                    s,
                                    ",\"of_trait\":{}",
                                    js(&self.path(tr.skip_binder().def_id.into()))
                                );
                            }
                            let derived = tcx.is_builtin_derived(c);
                            let _ = write!(s, ",\"derived\":{}", derived);
                        }
                        _ => {}
                    }
                }
            } else {
                let _ = write!(
                    s,
                    ",\"parent\":{}",
                    js(&self.ukey(tcx.typeck_root_def_id(d)))
                );
            }
            let _ = write!(s, ",\"body\":{}", self.body(body, env));
            let _ = write!(
                s,
                ",\"promoted\":{}",
                arr(promoted.iter().map(|b| self.body(b, env)))
            );
            s.push('}');
            fns.push(s);
        }
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut traits = Vec::new();
        let mut statics = Vec::new();
        let items = tcx.hir_crate_items(());
        for id in items.definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = arr(def.variants().iter_enumerated().map(|(vi, v)| {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            js(v.name.as_str()),
                            discr,
                            arr(v.fields.iter().map(|f| format!(
                                "{{\"n\":{},\"ty\":{},\"pub\":{}}}",
                                js(f.name.as_str()),
                                self.ty(tcx.type_of(f.did).skip_binder()),
                                f.vis.is_public()
                            )))
                        )
                    }));
                    adts.push(format!(
                        "{{\"p\":{},\"kind\":{},\"vis\":{},\"file\":{},\"ln\":{},\"v\":{}}}",
                        js(&self.path(d)),
                        js(&format!("{:?}", tcx.def_kind(d))),
                        eff.is_reachable(id),
                        js(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d)),
                        vs
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).skip_binder();
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| t.skip_binder());
                    let its = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| {
                            format!("[{},{}]", js(a.name().as_str()), js(&self.ukey(a.def_id)))
                        })
                        .collect::<Vec<_>>()
                        .join(",");
                    impls.push(format!(
                        "{{\"u\":{},\"trait\":{},\"targs\":{},\"self_ty\":{},\"items\":[{}],\"derived\":{},\"file\":{},\"ln\":{}}}",
                        js(&self.ukey(d)),
                        tr.as_ref().map(|t| js(&self.path(t.def_id.into()))).unwrap_or("null".into()),
                        tr.as_ref().map(|t| self.gargs(t.args)).unwrap_or("[]".into()),
                        self.ty(st),
                        its,
                        tcx.is_builtin_derived(d),
                        js(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d)),
                    ));
                }
                DefKind::Trait => {
                    let its = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| {
                            format!(
                                "[{},{},{}]",
                                js(a.name().as_str()),
                                js(&self.ukey(a.def_id)),
                                a.defaultness(tcx).has_value()
                            )
                        })
                        .collect::<Vec<_>>()
                        .join(",");
                    traits.push(format!("{{\"p\":{},\"items\":[{}]}}", js(&self.path(d)), its));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(format!(
                        "{{\"p\":{},\"mut\":{},\"freeze\":{}}}",
                        js(&self.path(d)),
                        mutability.is_mut(),
                        self.frozen(d)
                    ));
                }
                _ => {}
            }
        }
        let j = format!(
            "{{\"crate\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"traits\":{},\"statics\":{}}}",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            arr(fns),
            arr(adts),
            arr(impls),
            arr(traits),
            arr(statics)
        );
        std::fs::write(out, j).expect("write facts");
    }
}

struct Cb {
    out: Option<String>,
    wasm: bool,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        if self.out.is_some() {
            if self.wasm {
                c.crate_cfg.push("target_arch=\"wasm32\"".to_string());
                c.opts.lint_opts.push(("explicit_builtin_cfgs_in_flags".into(), rustc_lint_defs::Level::Allow));
            }
            c.opts.unstable_opts.mir_opt_level = Some(0);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            D { tcx }.dump(out);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut test = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    for a in &args {
        if a == "--test" {
            test = true;
        }
    }
    let out = if !test && !want.is_empty() && name == want {
        std::env::var("MIRFACTS_OUT").ok()
    } else {
        None
    };
    let wasm = std::env::var("MIRFACTS_WASM").map(|v| v == "1").unwrap_or(false);
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out, wasm });
}
