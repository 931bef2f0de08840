//! rustc driver that dumps the type-checked program (MIR as built, before
//! borrow checking and before the coroutine transform) of every workspace
//! crate to $VDUMP_DIR/<crate>.json. It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Value as J};

struct Dump {
    out: Option<String>,
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    let dp = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    // items of the analysed crates go by their defining path, whatever they are re-exported as
    let s = if tcx.crate_name(d.krate).as_str().starts_with("vercre") {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d))))
    } else {
        ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)))
    };
    fixcrate(tcx, s)
}
fn fixcrate(tcx: TyCtxt<'_>, s: String) -> String {
    if s.contains("crate::") {
        let c = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        s.replace("$crate::", "crate::").replace("crate::", &format!("{c}::"))
    } else {
        s
    }
}
fn tystr<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    let s = ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(t.to_string()));
    fixcrate(tcx, s)
}
fn span(tcx: TyCtxt<'_>, s: Span) -> J {
    let s = s.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = match &loc.file.name {
        rustc_span::FileName::Real(r) => r
            .local_path()
            .map(|p| p.display().to_string())
            .unwrap_or_default(),
        _ => String::new(),
    };
    json!([f, loc.line])
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => proj.push(json!(["deref"])),
                ProjectionElem::Field(i, _) => {
                    let mut name = format!("{}", i.as_usize());
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let v = match pt.variant_index {
                            Some(v) => ad.variant(v),
                            None if ad.is_enum() => ad.variants().iter().next().unwrap(),
                            None => ad.non_enum_variant(),
                        };
                        if i.as_usize() < v.fields.len() {
                            name = v.fields[i].name.to_string();
                        }
                    }
                    proj.push(json!(["field", name]));
                }
                ProjectionElem::Index(l) => proj.push(json!(["index", l.as_usize()])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(json!(["cidx", offset, from_end]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(json!(["subslice", from, to, from_end]))
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut name = format!("{}", v.as_usize());
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        name = ad.variant(v).name.to_string();
                    }
                    proj.push(json!(["as", name]))
                }
                _ => proj.push(json!(["cast"])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        if proj.is_empty() {
            json!(p.local.as_usize())
        } else {
            json!([p.local.as_usize(), proj])
        }
    }

    fn fndef(&self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let targs: Vec<J> = args
            .iter()
            .filter_map(|a| a.as_type().map(|t| J::from(tystr(tcx, t))))
            .collect();
        let mut o = json!({"k":"fn","id":uid(tcx,d),"path":pretty(tcx,d),"targs":targs});
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o["trait"] = J::from(pretty(tcx, tr));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, self.env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if rd != d {
                    o["rid"] = J::from(uid(tcx, rd));
                    o["rpath"] = J::from(pretty(tcx, rd));
                }
                match inst.def {
                    ty::InstanceKind::Virtual(..) => o["virt"] = J::from(true),
                    ty::InstanceKind::Item(_) => {}
                    _ => o["shim"] = J::from(format!("{:?}", inst.def)),
                }
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o["trait"] = J::from(pretty(tcx, tr.skip_binder().def_id));
            }
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, tcx.item_name(parent)),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(parent), tcx.item_name(parent)),
            };
            o["ctor"] = json!([pretty(tcx, adt), var.to_string(),
                of == rustc_hir::def::CtorOf::Variant]);
        }
        o
    }

    fn cval(&self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => return v.try_to_bool().map(|b| json!({"k":"bool","v":b})),
            ty::Char => {
                return v
                    .try_to_scalar_int()
                    .and_then(|s| char::from_u32(s.to_u32()))
                    .map(|c| json!({"k":"char","v":c.to_string()}))
            }
            ty::Int(_) => {
                return v.try_to_scalar_int().map(
                    |s| json!({"k":"int","v":s.to_int(s.size()).to_string(),"ty":t.to_string()}),
                )
            }
            ty::Uint(_) => {
                return v.try_to_scalar_int().map(
                    |s| json!({"k":"int","v":s.to_uint(s.size()).to_string(),"ty":t.to_string()}),
                )
            }
            ty::Float(_) => {
                return v.try_to_scalar_int().map(
                    |s| json!({"k":"float","v":s.to_uint(s.size()).to_string(),"ty":t.to_string()}),
                )
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return Some(json!({"k":"str","v":String::from_utf8_lossy(b)}));
                    }
                }
                ty::Slice(e) if *e == tcx.types.u8 => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return Some(json!({"k":"bytes","v":b}));
                    }
                }
                ty::Array(e, n) if *e == tcx.types.u8 => {
                    // &'static [u8; N]
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let n = n.try_to_target_usize(tcx)? as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                off.bytes_usize()..off.bytes_usize() + n,
                            );
                            return Some(json!({"k":"bytes","v":b}));
                        }
                    }
                }
                _ => {}
            },
            ty::Tuple(l) if l.is_empty() => return Some(json!({"k":"unit"})),
            ty::FnDef(d, a) => return Some(self.fndef(*d, a.skip_binder())),
            _ => {}
        }
        None
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fndef(*d, a.skip_binder());
        }
        // a reference to an immutable static without interior mutability stands for its value
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) =
            c.const_
        {
            let (prov, off) = p.prov_and_relative_offset();
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                tcx.global_alloc(prov.alloc_id())
            {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if off.bytes_usize() == 0
                    && !tcx.is_mutable_static(d)
                    && matches!(t.kind(), ty::Ref(..))
                    && st.is_freeze(tcx, self.env)
                {
                    return json!({"k":"named","path":pretty(tcx,d),"id":uid(tcx,d),"ty":tystr(tcx,t)});
                }
            }
        }
        let named = match c.const_ {
            Const::Unevaluated(u, _) => Some((pretty(tcx, u.def), uid(tcx, u.def))),
            _ => None,
        };
        let val = match c.const_ {
            Const::Val(v, t) => self.cval(v, t),
            _ => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    c.const_.eval(tcx, self.env, c.span).ok()
                }));
                r.ok().flatten().and_then(|v| self.cval(v, t))
            }
        };
        match (named, val) {
            (Some((p, i)), Some(mut v)) => {
                v["name"] = J::from(p);
                v["id"] = J::from(i);
                v
            }
            (None, Some(v)) => v,
            (Some((p, i)), None) => json!({"k":"named","path":p,"id":i,"ty":tystr(tcx,t)}),
            (None, None) => json!({"k":"other","ty":tystr(tcx,t),"s":format!("{}", c.const_)}),
        }
    }

    fn op(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => json!({"c": self.place(p)}),
            Operand::Move(p) => json!({"m": self.place(p)}),
            Operand::Constant(c) => json!({"k": self.constant(c)}),
            _ => json!({"k":{"k":"other","ty":"bool","s":"runtime-check"}}),
        }
    }

    fn variants(&self, t: Ty<'tcx>) -> J {
        if let ty::Adt(ad, _) = t.kind() {
            if ad.is_enum() {
                let v: Vec<J> = ad
                    .discriminants(self.tcx)
                    .map(|(i, d)| json!([d.val.to_string(), ad.variant(i).name.to_string()]))
                    .collect();
                return J::from(v);
            }
        }
        J::Null
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.op(o)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.op(o), n.to_string()]),
            Rvalue::Ref(_, bk, p) => json!(["ref", matches!(bk, BorrowKind::Mut{..}), self.place(p)]),
            Rvalue::RawPtr(_, p) => json!(["ref", true, self.place(p)]),
            Rvalue::Reborrow(_, m, p) => json!(["ref", m.is_mut(), self.place(p)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{k:?}"), self.op(o), tystr(tcx, *t)]),
            Rvalue::BinaryOp(b, ops) => {
                json!(["bin", format!("{b:?}"), self.op(&ops.0), self.op(&ops.1)])
            }
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{u:?}"), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                json!(["discr", self.place(p), tystr(tcx, t), self.variants(t)])
            }
            Rvalue::CopyForDeref(p) => json!(["use", {"c": self.place(p)}]),
            Rvalue::WrapUnsafeBinder(o, _) => json!(["use", self.op(o)]),
            Rvalue::ThreadLocalRef(d) => json!(["tls", uid(tcx, *d)]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|x| self.op(x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => json!(["array"]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let mut f: Vec<String> =
                            var.fields.iter().map(|f| f.name.to_string()).collect();
                        if let Some(a) = active {
                            f = vec![f[a.as_usize()].clone()];
                        }
                        json!(["adt", pretty(tcx, *d), var.name.to_string(), f, ad.is_enum()])
                    }
                    AggregateKind::Closure(d, _) => json!(["closure", uid(tcx, *d)]),
                    AggregateKind::Coroutine(d, _) => json!(["coroutine", uid(tcx, *d)]),
                    AggregateKind::CoroutineClosure(d, _) => json!(["closure", uid(tcx, *d)]),
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                };
                json!(["agg", kk, o])
            }
        }
    }

    fn body(&self) -> J {
        let tcx = self.tcx;
        let mut blocks = vec![];
        for (_, bb) in self.body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(json!(["=", self.place(&b.0), self.rv(&b.1), span(tcx, s.source_info.span)[1]]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(self.body, tcx).ty;
                        let mut name = String::new();
                        if let ty::Adt(ad, _) = t.kind() {
                            name = ad.variant(*variant_index).name.to_string();
                        }
                        st.push(json!(["setd", self.place(place), name]))
                    }
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_usize()])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span(tcx, t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!(["goto", target.as_usize()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| json!([v.to_string(), b.as_usize()]))
                        .collect();
                    json!(["switch", self.op(discr), tystr(tcx, discr.ty(self.body, tcx)), v, targets.otherwise().as_usize()])
                }
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Drop { target, place, .. } => {
                    json!(["drop", self.place(place), target.as_usize()])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| J::from(tystr(tcx, x.node.ty(self.body, tcx))))
                        .collect();
                    json!(["call", self.op(func), a, self.place(destination),
                        target.map(|t| t.as_usize()), at,
                        tystr(tcx, destination.ty(self.body, tcx).ty)])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    json!(["tailcall", self.op(func), a])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!(["assert", self.op(cond), expected, format!("{msg:?}"), target.as_usize()])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    json!(["yield", self.op(value), resume.as_usize(), self.place(resume_arg)])
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    json!(["goto", real_target.as_usize()])
                }
                _ => json!(["unreachable"]),
            };
            blocks.push(json!({"s": st, "t": term, "l": sp[1], "f": sp[0]}));
        }
        let locals: Vec<J> = self
            .body
            .local_decls
            .iter()
            .map(|d| J::from(tystr(tcx, d.ty)))
            .collect();
        let mut names = vec![];
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(json!([v.name.to_string(), self.place(p)]));
            }
        }
        json!({"locals": locals, "names": names, "argc": self.body.arg_count, "blocks": blocks})
    }
}

impl Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Some(dir) = self.out.clone() else { return Compilation::Continue };
        let mut owners: Vec<LocalDefId> = tcx
            .hir_body_owners()
            .filter(|d| !matches!(tcx.def_kind(*d), DefKind::AnonConst))
            .collect();
        owners.sort_by_key(|d| match tcx.def_kind(*d) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => 1,
            _ => 2,
        });
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut stolen = vec![];
        for d in owners {
            let st = tcx.mir_built(d);
            if st.is_stolen() {
                stolen.push(uid(tcx, d.to_def_id()));
                continue;
            }
            bodies.push((d, st.borrow().clone()));
        }
        let mut out = vec![];
        for (d, b) in &bodies {
            let did = d.to_def_id();
            if b.tainted_by_errors.is_some() {
                continue;
            }
            let env = TypingEnv::non_body_analysis(tcx, did);
            let cx = Cx { tcx, body: b, env };
            let mut j = cx.body();
            j["id"] = J::from(uid(tcx, did));
            j["path"] = J::from(pretty(tcx, did));
            let dk = tcx.def_kind(did);
            let mut kind = format!("{:?}", dk);
            if matches!(dk, DefKind::Closure) && tcx.is_coroutine(did) {
                kind = "Coroutine".into();
            }
            j["kind"] = J::from(kind);
            let parent = tcx.parent(did);
            j["parent"] = J::from(uid(tcx, parent));
            j["span"] = span(tcx, tcx.def_span(did));
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                j["pub"] = J::from(tcx.visibility(did).is_public());
                j["eff_pub"] = J::from(tcx.effective_visibilities(()).is_reachable(*d));
                j["async"] = J::from(tcx.asyncness(did).is_async());
            }
            if matches!(dk, DefKind::AssocFn) {
                if let Some(im) = tcx.impl_of_assoc(did) {
                    j["self_ty"] = J::from(tystr(tcx, tcx.type_of(im).instantiate_identity().skip_norm_wip()));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        j["impl_trait"] = J::from(pretty(tcx, tr.skip_binder().def_id));
                        j["trait_ref"] = J::from(fixcrate(tcx, ty::print::with_no_trimmed_paths!(
                            ty::print::with_crate_prefix!(format!("{:?}", tr.skip_binder())))));
                    }
                    j["derived"] = J::from(tcx.is_automatically_derived(im));
                    j["impl_span"] = span(tcx, tcx.def_span(im));
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    j["in_trait"] = J::from(pretty(tcx, tr));
                }
                j["name"] = J::from(tcx.item_name(did).to_string());
            } else if matches!(dk, DefKind::Fn) {
                j["name"] = J::from(tcx.item_name(did).to_string());
            }
            out.push(j);
        }
        // local ADTs
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let dk = tcx.def_kind(id);
            if matches!(dk, DefKind::Struct | DefKind::Enum) {
                let ad = tcx.adt_def(id);
                let vs: Vec<J> = ad
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| json!([f.name.to_string(), tystr(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), tcx.visibility(f.did).is_public()]))
                            .collect();
                        json!([v.name.to_string(), fs])
                    })
                    .collect();
                adts.push(json!({"path": pretty(tcx, id.to_def_id()), "enum": ad.is_enum(), "variants": vs, "span": span(tcx, tcx.def_span(id))}));
            }
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = json!({"crate": name, "bodies": out, "adts": adts, "stolen": stolen});
        std::fs::write(format!("{dir}/{name}.part"), serde_json::to_string(&j).unwrap()).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out = if crate_name.starts_with("vercre_") {
        std::env::var("VDUMP_DIR").ok()
    } else {
        None
    };
    // the dump only counts once the crate has passed every compiler check
    let done = out.clone().map(|d| format!("{d}/{}", crate_name.replace('-', "_")));
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out })
    });
    let ok = code == std::process::ExitCode::SUCCESS;
    if let (true, Some(d)) = (ok, done) {
        let _ = std::fs::rename(format!("{d}.part"), format!("{d}.json"));
    }
    std::process::exit(i32::from(!ok));
}
