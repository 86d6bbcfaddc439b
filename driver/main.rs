#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

// ---------------------------------------------------------------- JSON helpers
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tys<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, l.line))
    }

    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if !ad.is_enum() || pt.variant_index.is_some() {
                            if let Some(v) = ad.variants().get(vi) {
                                if let Some(fd) = v.fields.get(f) {
                                    name = fd.name.to_string();
                                }
                            }
                        }
                    }
                    format!("{{\"f\":{},\"n\":{}}}", f.index(), js(&name))
                }
                ProjectionElem::Downcast(n, v) => {
                    let mut name = n.map(|x| x.to_string()).unwrap_or_default();
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        if ad.is_enum() {
                            name = ad.variant(v).name.to_string();
                        }
                    }
                    format!("{{\"v\":{},\"n\":{}}}", v.index(), js(&name))
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"ci\":{},\"ml\":{},\"fe\":{}}}", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end)
                }
                _ => "\"?\"".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        if pr.is_empty() {
            format!("[{}]", p.local.index())
        } else {
            format!("[{},{}]", p.local.index(), pr.join(","))
        }
    }

    fn fn_json(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = path(tcx, did);
        let mut res = String::new();
        let mut kind = "decl";
        let mut rargs = String::new();
        let a = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args));
        {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, a) {
                match inst.def {
                    InstanceKind::Item(d) => {
                        res = path(tcx, d);
                        kind = "item";
                        rargs = self.args(inst.args);
                    }
                    InstanceKind::Virtual(d, _) => {
                        res = path(tcx, d);
                        kind = "virtual";
                    }
                    InstanceKind::Intrinsic(d) => {
                        res = path(tcx, d);
                        kind = "intrinsic";
                    }
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        res = path(tcx, closure);
                        kind = "item";
                    }
                    InstanceKind::Shim(ty::ShimKind::Reify(d, _)) => {
                        res = path(tcx, d);
                        kind = "item";
                    }
                    _ => {
                        kind = "shim";
                    }
                }
            }
        }
        let mut s = format!("{{\"d\":{},\"k\":{}", js(&decl), js(kind));
        if !res.is_empty() && res != decl {
            let _ = write!(s, ",\"r\":{}", js(&res));
        }
        let da = self.args(args);
        if da != "[]" {
            let _ = write!(s, ",\"a\":{}", da);
        }
        if !rargs.is_empty() && rargs != da && rargs != "[]" {
            let _ = write!(s, ",\"ra\":{}", rargs);
        }
        // closures / fn defs among generic args (callbacks passed by type)
        let mut cbs = vec![];
        for ga in args.iter() {
            if let Some(t) = ga.as_type() {
                for w in t.walk() {
                    if let Some(t) = w.as_type() {
                        match t.kind() {
                            ty::Closure(d, _) => cbs.push(js(&path(tcx, *d))),
                            ty::FnDef(d, _) => cbs.push(js(&path(tcx, *d))),
                            _ => {}
                        }
                    }
                }
            }
        }
        if !cbs.is_empty() {
            let _ = write!(s, ",\"cb\":{}", arr(cbs));
        }
        if tcx.is_foreign_item(did) {
            let _ = write!(s, ",\"foreign\":{}", js(&tcx.item_name(did).to_string()));
        }
        s.push('}');
        s
    }
    fn args(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        arr(args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(js(&tys(t)))
                } else if a.as_region().is_some() {
                    None
                } else {
                    Some(js(&format!("{}", a)))
                }
            })
            .collect())
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            return format!("{{\"fn\":{}}}", self.fn_json(*d, a));
        }
        let mut s = format!("{{\"ty\":{}", js(&tys(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(s, ",\"def\":{}", js(&path(tcx, u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"promoted\":{}", p.index());
                s.push('}');
                return s;
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let size = sc.size();
                if t.is_signed() {
                    let _ = write!(s, ",\"int\":\"{}\"", sc.to_int(size));
                } else {
                    let _ = write!(s, ",\"int\":\"{}\"", sc.to_uint(size));
                }
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            let is_bytes = match inner.kind() {
                ty::Array(e, _) => *e == tcx.types.u8,
                ty::Slice(e) => *e == tcx.types.u8,
                _ => false,
            };
            if inner.is_str() || is_bytes {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    let fat = inner.is_str() || matches!(inner.kind(), ty::Slice(_));
                    if let Some(b) = if fat { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None } {
                        let _ = write!(s, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                    } else if is_bytes && !fat {
                        // thin pointer to [u8; N]
                        if let ty::Array(_, n) = inner.kind() {
                            if let (Some(n), Some(sc)) = (n.try_to_target_usize(tcx), v.try_to_scalar()) {
                                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                                    let (prov, off) = p.into_raw_parts();
                                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(al) =
                                        tcx.global_alloc(prov.alloc_id())
                                    {
                                        let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes() as usize..(off.bytes() + n) as usize,
                                        );
                                        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                        let _ = write!(s, ",\"bytes\":[{}]", v.join(","));
                                    }
                                }
                            }
                        }
                    }
                }
            } else {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                        let (prov, _off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let _ = write!(s, ",\"static\":{}", js(&path(tcx, d)));
                        }
                    }
                }
            }
        } else if let ty::RawPtr(..) = t.kind() {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, _off) = p.into_raw_parts();
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                        tcx.global_alloc(prov.alloc_id())
                    {
                        let _ = write!(s, ",\"static\":{}", js(&path(tcx, d)));
                    }
                }
            }
        } else if let ty::Adt(ad, _) = t.kind() {
            if ad.is_enum() {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        if let Some(vi) = d.variant {
                            let _ = write!(s, ",\"variant\":{}", js(ad.variant(vi).name.as_str()));
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }

    fn operand(&self, o: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, body)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c)),
            _ => "{\"rt\":true}".into(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"use\":{}}}", self.operand(o, body)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"repeat\":{},\"n\":{}}}", self.operand(o, body), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("{{\"ref\":{},\"mut\":{}}}", self.place(p, body), m)
            }
            Rvalue::Reborrow(_, _, p) => format!("{{\"ref\":{},\"mut\":true}}", self.place(p, body)),
            Rvalue::RawPtr(_, p) => format!("{{\"addr\":{}}}", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"tls\":{}}}", js(&path(self.tcx, *d))),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"cast\":{},\"kind\":{},\"ty\":{}}}",
                self.operand(o, body),
                js(&format!("{:?}", k)),
                js(&tys(*t))
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"bin\":{},\"l\":{},\"r\":{}}}",
                js(&format!("{:?}", op)),
                self.operand(&b.0, body),
                self.operand(&b.1, body)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"un\":{},\"x\":{}}}", js(&format!("{:?}", op)), self.operand(a, body))
            }
            Rvalue::Discriminant(p) => format!("{{\"discr\":{}}}", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.operand(x, body)).collect());
                match &**k {
                    AggregateKind::Array(t) => format!("{{\"agg\":\"array\",\"ty\":{},\"ops\":{}}}", js(&tys(*t)), o),
                    AggregateKind::Tuple => format!("{{\"agg\":\"tuple\",\"ops\":{}}}", o),
                    AggregateKind::Adt(d, vi, _, _, fi) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        let names: Vec<String> = if let Some(fi) = fi {
                            vec![js(v.fields[*fi].name.as_str())]
                        } else {
                            v.fields.iter().map(|f| js(f.name.as_str())).collect()
                        };
                        format!(
                            "{{\"agg\":\"adt\",\"adt\":{},\"variant\":{},\"vi\":{},\"names\":{},\"ops\":{}}}",
                            js(&path(self.tcx, *d)),
                            js(v.name.as_str()),
                            vi.index(),
                            arr(names),
                            o
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"agg\":\"closure\",\"fn\":{},\"ops\":{}}}", js(&path(self.tcx, *d)), o)
                    }
                    AggregateKind::RawPtr(..) => format!("{{\"agg\":\"rawptr\",\"ops\":{}}}", o),
                    _ => format!("{{\"agg\":\"other\",\"ops\":{}}}", o),
                }
            }
            Rvalue::CopyForDeref(p) => format!("{{\"use\":{{\"c\":{}}}}}", self.place(p, body)),
            _ => format!("{{\"other\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn drop_impls(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut BTreeSet<String>) {
        if !seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(ad, args) => {
                if ad.is_manually_drop() {
                    return;
                }
                if let Some(d) = tcx.adt_destructor(ad.did()) {
                    out.insert(path(tcx, d.did));
                }
                let local = {
                    let n = tcx.crate_name(ad.did().krate);
                    n.as_str().starts_with("hodu")
                };
                if local {
                    for f in ad.all_fields() {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        self.drop_impls(ft, seen, out);
                    }
                } else {
                    for a in args.types() {
                        self.drop_impls(a, seen, out);
                    }
                }
            }
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    self.drop_impls(x, seen, out);
                }
            }
            ty::Array(x, _) | ty::Slice(x) => self.drop_impls(*x, seen, out),
            ty::Closure(_, a) => {
                for x in a.as_closure().upvar_tys() {
                    self.drop_impls(x, seen, out);
                }
            }
            ty::Dynamic(..) => {
                out.insert(format!("dyn:{}", tys(t)));
            }
            ty::Param(_) => {
                out.insert(format!("param:{}", tys(t)));
            }
            _ => {}
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.index().to_string(),
            UnwindAction::Continue => "\"c\"".into(),
            UnwindAction::Unreachable => "\"u\"".into(),
            UnwindAction::Terminate(_) => "\"t\"".into(),
        }
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let mut s = String::new();
        let mut names: Vec<String> = vec!["null".into(); b.local_decls.len()];
        for vi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vi.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = js(vi.name.as_str());
                }
            }
        }
        let mut upv = vec![];
        for vi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vi.value {
                if !p.projection.is_empty() && p.local.index() == 1 {
                    upv.push(format!("[{},{}]", js(vi.name.as_str()), self.place(p, b)));
                }
            }
        }
        let locals = arr(b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                format!("[{},{},{}]", js(&tys(d.ty)), names[l.index()], d.mutability.is_mut())
            })
            .collect());
        let _ = write!(s, "{{\"argc\":{},\"locals\":{},\"upv\":{},\"blocks\":[", b.arg_count, locals, arr(upv));
        let mut first = true;
        for (_bb, d) in b.basic_blocks.iter_enumerated() {
            if !first {
                s.push(',');
            }
            first = false;
            let mut sts = vec![];
            for st in &d.statements {
                match &st.kind {
                    StatementKind::Assign(a) => sts.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(&a.0, b),
                        self.rvalue(&a.1, b),
                        self.loc(st.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!("[\"sd\",{},{}]", self.place(place, b), variant_index.index()))
                    }
                    StatementKind::StorageDead(l) => sts.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = d.terminator();
            let loc = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> =
                        targets.iter().map(|(v, bb)| format!("[\"{}\",{}]", v, bb.index())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    format!(
                        "{{\"t\":\"switch\",\"on\":{},\"ty\":{},\"cases\":{},\"else\":{},\"loc\":{}}}",
                        self.operand(discr, b),
                        js(&tys(dt)),
                        arr(vs),
                        targets.otherwise().index(),
                        loc
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"t\":\"terminate\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    let mut seen = HashSet::new();
                    let mut out = BTreeSet::new();
                    self.drop_impls(ty, &mut seen, &mut out);
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"impls\":{},\"to\":{},\"uw\":{},\"loc\":{}}}",
                        self.place(place, b),
                        js(&tys(ty)),
                        arr(out.iter().map(|x| js(x)).collect()),
                        target.index(),
                        self.unwind(unwind),
                        loc
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.fn_json(*d, a.skip_binder()),
                            _ => "{\"k\":\"ptr\"}".to_string(),
                        },
                        o => format!("{{\"k\":\"ptr\",\"op\":{}}}", self.operand(o, b)),
                    };
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":{},\"dst\":{},\"to\":{},\"uw\":{},\"loc\":{}}}",
                        f,
                        arr(args.iter().map(|a| self.operand(&a.node, b)).collect()),
                        self.place(destination, b),
                        target.map(|x| x.index().to_string()).unwrap_or("null".into()),
                        self.unwind(unwind),
                        loc
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "{{\"bounds\":[{},{}]}}",
                            self.operand(len, b),
                            self.operand(index, b)
                        ),
                        AssertKind::Overflow(op, ..) => js(&format!("overflow:{:?}", op)),
                        AssertKind::OverflowNeg(_) => "\"overflow:Neg\"".into(),
                        AssertKind::DivisionByZero(_) => "\"div0\"".into(),
                        AssertKind::RemainderByZero(_) => "\"rem0\"".into(),
                        _ => "\"other\"".into(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{},\"to\":{},\"uw\":{},\"loc\":{}}}",
                        self.operand(cond, b),
                        expected,
                        m,
                        target.index(),
                        self.unwind(unwind),
                        loc
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.index())
                }
                k => format!("{{\"t\":\"other\",\"x\":{}}}", js(&format!("{:?}", k))),
            };
            let _ = write!(s, "[{},{}{}]", arr(sts), tj, if d.is_cleanup { ",1" } else { "" });
        }
        s.push_str("]}");
        s
    }
}

fn abi_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}", tcx.fn_sig(d).skip_binder().abi())
}

fn dump(tcx: TyCtxt<'_>, out: &mut impl std::io::Write) -> std::io::Result<()> {
    let krate = tcx.crate_name(LOCAL_CRATE);
    writeln!(out, "{{\"kind\":\"crate\",\"name\":{}}}", js(krate.as_str()))?;
    // ADTs, impls, statics, foreign items
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let env = TypingEnv::fully_monomorphized();
        let cx = Cx { tcx, env };
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(did);
                let mut vs = vec![];
                let discrs: Vec<u128> = if ad.is_enum() {
                    ad.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (i, v) in ad.variants().iter().enumerate() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            format!(
                                "[{},{},{}]",
                                js(f.name.as_str()),
                                js(&tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                f.vis.is_public()
                            )
                        })
                        .collect();
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", js(v.name.as_str()), discrs.get(i).copied().unwrap_or(0), arr(fs)));
                }
                let dt = tcx.adt_destructor(did).map(|d| js(&path(tcx, d.did))).unwrap_or("null".into());
                writeln!(
                    out,
                    "{{\"kind\":\"adt\",\"path\":{},\"enum\":{},\"pub\":{},\"variants\":{},\"drop\":{},\"loc\":{}}}",
                    js(&path(tcx, did)),
                    ad.is_enum(),
                    tcx.visibility(did).is_public(),
                    arr(vs),
                    dt,
                    cx.loc(tcx.def_span(did))
                )?;
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tys(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    js(&path(tcx, t.def_id))
                } else {
                    "null".into()
                };
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        format!("[{},{}]", js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), js(&path(tcx, i.def_id)))
                    })
                    .collect();
                writeln!(
                    out,
                    "{{\"kind\":\"impl\",\"trait\":{},\"self\":{},\"items\":{},\"loc\":{}}}",
                    tr,
                    js(&self_ty),
                    arr(items),
                    cx.loc(tcx.def_span(did))
                )?;
            }
            DefKind::Trait => {
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        format!(
                            "[{},{},{}]",
                            js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()),
                            js(&path(tcx, i.def_id)),
                            i.defaultness(tcx).has_value()
                        )
                    })
                    .collect();
                writeln!(out, "{{\"kind\":\"trait\",\"path\":{},\"items\":{}}}", js(&path(tcx, did)), arr(items))?;
            }
            DefKind::Static { mutability, .. } => {
                let tl = tcx.is_thread_local_static(did);
                writeln!(
                    out,
                    "{{\"kind\":\"static\",\"path\":{},\"ty\":{},\"mut\":{},\"tls\":{},\"foreign\":{},\"loc\":{}}}",
                    js(&path(tcx, did)),
                    js(&tys(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    mutability.is_mut(),
                    tl,
                    tcx.is_foreign_item(did),
                    cx.loc(tcx.def_span(did))
                )?;
            }
            DefKind::Fn if tcx.is_foreign_item(did) => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| js(&tys(*t))).collect();
                writeln!(
                    out,
                    "{{\"kind\":\"foreign\",\"name\":{},\"path\":{},\"inputs\":{},\"output\":{},\"abi\":{},\"loc\":{}}}",
                    js(tcx.item_name(did).as_str()),
                    js(&path(tcx, did)),
                    arr(ins),
                    js(&tys(sig.output())),
                    js(&abi_str(tcx, did)),
                    cx.loc(tcx.def_span(did))
                )?;
            }
            _ => {}
        }
    }
    // bodies
    for id in tcx.mir_keys(()) {
        let id: LocalDefId = *id;
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
        );
        if !is_fn && !is_const {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let cx = Cx { tcx, env };
        let body: &Body<'_> = if is_fn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
        let prom = tcx.promoted_mir(did);
        let proms: Vec<String> = prom.iter().map(|b| cx.body(b)).collect();
        let k = format!("{:?}", kind);
        let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        let mut extra = String::new();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(extra, ",\"pub\":{}", tcx.visibility(did).is_public());
            let _ = write!(extra, ",\"reach\":{}", tcx.effective_visibilities(()).is_reachable(id));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| js(&tys(*t))).collect();
            let _ = write!(extra, ",\"sig\":[{},{}]", arr(ins), js(&tys(sig.output())));
            let gens = tcx.generics_of(did);
            let mut gn = vec![];
            for i in 0..gens.count() {
                let p = gens.param_at(i, tcx);
                gn.push(js(p.name.as_str()));
            }
            if !gn.is_empty() {
                let _ = write!(extra, ",\"gen\":{}", arr(gn));
            }
        }
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let _ = write!(extra, ",\"impl_self\":{}", js(&tys(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                if of_trait {
                    let t = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impl_trait\":{}", js(&path(tcx, t.def_id)));
                }
            }
        }
        let sp = tcx.def_span(did);
        if sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            let _ = write!(extra, ",\"exp\":{}", js(&format!("{:?}", d.kind)));
        }
        writeln!(
            out,
            "{{\"kind\":\"fn\",\"path\":{},\"dk\":{},\"name\":{},\"parent\":{},\"loc\":{}{},\"body\":{},\"promoted\":{}}}",
            js(&path(tcx, did)),
            js(&k),
            js(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default().as_str()),
            js(&tcx.opt_parent(did).map(|p| path(tcx, p)).unwrap_or_default()),
            cx.loc(sp),
            extra,
            cx.body(body),
            arr(proms)
        )?;
    }
    Ok(())
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("HODU_MIR_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let is_bin = tcx.entry_fn(()).is_some();
            let test = tcx.sess.opts.test;
            if name != "build_script_build" {
                let fname = format!("{}{}{}.jsonl", name, if is_bin { ".bin" } else { "" }, if test { ".test" } else { "" });
                let tmp = format!("{}/.{}.{}", dir, fname, std::process::id());
                let f = std::fs::File::create(&tmp).expect("create mir out");
                let mut w = std::io::BufWriter::new(f);
                dump(tcx, &mut w).expect("write mir out");
                w.flush().expect("flush");
                std::fs::rename(&tmp, format!("{}/{}", dir, fname)).expect("rename");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zub-checks=no".into());
    args.push("--cap-lints=allow".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
