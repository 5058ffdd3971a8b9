//! Facts about every function of the repository's runtime crate and of the witness crate, read from their MIR and signatures.
use crate::json::J;
use rustc_ast::attr::AttributeExt;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::collections::BTreeSet;

struct V<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    calls: BTreeSet<(String, bool, String)>,
    unsafe_ops: BTreeSet<String>,
    statics: BTreeSet<String>,
    builds: BTreeSet<String>,
    types: BTreeSet<String>,
    refs: BTreeSet<String>,
    writes: BTreeSet<String>,
    foreign: BTreeSet<String>,
}

struct H<'tcx> { tcx: TyCtxt<'tcx>, found: BTreeSet<String> }
impl<'tcx> intravisit::Visitor<'tcx> for H<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) && !b.span.allows_unsafe() { self.found.insert(loc(self.tcx, b.span)); }
        intravisit::walk_block(self, b);
    }
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let s = tcx.sess.source_map().span_to_diagnostic_string(sp);
    s.split(": ").next().unwrap_or("").to_string()
}

fn tyname(t: Ty<'_>) -> String { t.to_string() }

impl<'a, 'tcx> V<'a, 'tcx> {
    fn types_in(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                match t.kind() {
                    ty::Adt(a, _) => { self.types.insert(self.tcx.def_path_str(a.did())); }
                    ty::Dynamic(..) => { self.types.insert(format!("dyn {t}")); }
                    _ => {}
                }
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) {
        if let Some(d) = c.check_static_ptr(self.tcx) { self.stat(d); }
        if let Const::Unevaluated(u, _) = c.const_ { self.refs.insert(self.tcx.def_path_str(u.def)); }
        if let ty::FnDef(d, a) = c.const_.ty().kind() {
            let d = *d;
            let unsafe_fn = self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let name = self.tcx.def_path_str_with_args(d, a.skip_binder());
            self.calls.insert((self.tcx.def_path_str(d), unsafe_fn, name));
            // what formatting macros expand to is the compiler's own
            let own = c.span.allows_unsafe() || self.tcx.def_path_str(d).starts_with("std::fmt::Arguments") || self.tcx.def_path_str(d).starts_with("core::fmt::Arguments");
            if self.tcx.is_foreign_item(d) { self.foreign.insert(self.tcx.def_path_str(d)); }
            if unsafe_fn && !own { self.unsafe_ops.insert(format!("unsafe function {} at {}", self.tcx.def_path_str(d), loc(self.tcx, c.span))); }
        }
    }
    fn stat(&mut self, d: DefId) {
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let frozen = t.is_freeze(self.tcx, ty::TypingEnv::fully_monomorphized());
        self.statics.insert(format!("{}{}{}{}{}", self.tcx.def_path_str(d), if self.tcx.is_mutable_static(d) { " mutable" } else { "" }, if frozen { "" } else { " interior-mutable" },
            if self.tcx.is_thread_local_static(d) { " thread-local" } else { "" }, if self.tcx.is_foreign_item(d) { " foreign" } else { "" }));
    }
}

impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) { self.constant(c); self.super_const_operand(c, l); }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let sp = self.body.source_info(l).span;
        match r {
            Rvalue::ThreadLocalRef(d) => { self.statics.insert(format!("{} thread-local", self.tcx.def_path_str(*d))); }
            Rvalue::Aggregate(k, _) => match &**k {
                AggregateKind::Adt(d, v, _, _, _) => {
                    let a = self.tcx.adt_def(*d);
                    let n = self.tcx.def_path_str(*d);
                    self.builds.insert(if a.is_enum() { format!("{}::{}", n, a.variant(*v).name) } else { n });
                }
                _ => {}
            },
            Rvalue::Cast(CastKind::Transmute, ..) => { self.unsafe_ops.insert(format!("transmute at {}", loc(self.tcx, sp))); }
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => { self.unsafe_ops.insert(format!("pointer turned into a number at {}", loc(self.tcx, sp))); }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_place(&mut self, p: &Place<'tcx>, c: PlaceContext, l: Location) {
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&self.body.local_decls, self.tcx).ty;
            if matches!(e, ProjectionElem::Deref) && bt.is_raw_ptr() {
                // a static is reached through a pointer constant
                if let Some(loc_) = base.as_local() {
                    if matches!(self.body.local_decls[loc_].local_info, ClearCrossCrate::Clear) || self.body.local_decls[loc_].is_ref_to_static() { continue; }
                }
                self.unsafe_ops.insert(format!("raw pointer dereference at {}", loc(self.tcx, self.body.source_info(l).span)));
            }
            if let (ProjectionElem::Field(fi, _), ty::Adt(a, _)) = (e, bt.kind()) {
                if c.is_mutating_use() && a.is_struct() { self.writes.insert(format!("{}.{}", self.tcx.def_path_str(a.did()), a.non_enum_variant().fields[fi].name)); }
            }
            if matches!(e, ProjectionElem::Field(..)) && bt.is_union() {
                self.unsafe_ops.insert(format!("union access at {}", loc(self.tcx, self.body.source_info(l).span)));
            }
        }
        self.super_place(p, c, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind { self.unsafe_ops.insert(format!("inline assembly at {}", loc(self.tcx, t.source_info.span))); }
        self.super_terminator(t, l);
    }
}

/// the documentation a local item carries, also what a derive attached to it
fn docs(tcx: TyCtxt<'_>, d: DefId) -> J {
    let Some(l) = d.as_local() else { return J::Null };
    J::A(tcx.hir_attrs(tcx.local_def_id_to_hir_id(l)).iter().filter_map(|a| a.doc_str()).map(|s| J::S(s.to_string())).collect())
}

/// documentation of the local types and of their implementations
pub fn run_docs(tcx: TyCtxt<'_>) {
    let mut out = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Impl { .. } | DefKind::Struct) { continue; }
        let me = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tr = if let DefKind::Impl { of_trait: true } = k { tcx.impl_opt_trait_ref(d.to_def_id()).map(|t| t.instantiate_identity().skip_norm_wip().to_string()) } else { None };
        out.push(J::o(vec![("self", J::S(tyname(me))), ("trait", tr.map(J::S).unwrap_or(J::Null)), ("docs", docs(tcx, d.to_def_id()))]));
    }
    let j = J::o(vec![("items", J::A(out))]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(std::env::var("VP_OUT").unwrap(), s).unwrap();
}

fn strs(s: &BTreeSet<String>) -> J { J::A(s.iter().map(|x| J::S(x.clone())).collect()) }

pub fn run(tcx: TyCtxt<'_>) {
    let out = std::env::var("VP_OUT").unwrap();
    let mut fns = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut adts = vec![];
    let mut h = H { tcx, found: BTreeSet::new() };
    tcx.hir_visit_all_item_likes_in_crate(&mut h);
    let mut crates: Vec<CrateNum> = vec![LOCAL_CRATE];
    for &c in tcx.crates(()) { if tcx.crate_name(c).as_str() == "packed_struct" { crates.push(c); } }
    let mut externs: Vec<J> = tcx.crates(()).iter().map(|c| J::S(tcx.crate_name(*c).to_string())).collect();
    externs.sort_by_key(|j| if let J::S(s) = j { s.clone() } else { String::new() });
    for c in crates {
        let n = if c == LOCAL_CRATE { tcx.hir_crate_items(()).definitions().map(|d| d.local_def_index.as_usize() + 1).max().unwrap_or(0) } else { tcx.num_extern_def_ids(c) };
        let mut defs: Vec<DefId> = vec![];
        if c == LOCAL_CRATE { defs = tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).collect(); for d in tcx.mir_keys(()).iter() { if !defs.contains(&d.to_def_id()) { defs.push(d.to_def_id()); } } }
        else { for i in 0..n { defs.push(DefId { krate: c, index: DefIndex::from_usize(i) }); } }
        for d in defs {
            let k = tcx.def_kind(d);
            match k {
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(J::o(vec![("path", J::S(tcx.def_path_str(d))), ("ty", J::S(tyname(t))), ("mutable", J::B(tcx.is_mutable_static(d))),
                        ("freeze", J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))), ("tls", J::B(tcx.is_thread_local_static(d)))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let mut ts = BTreeSet::new();
                    for fd in tcx.adt_def(d).all_fields() {
                        for g in tcx.type_of(fd.did).instantiate_identity().skip_norm_wip().walk() {
                            if let Some(t) = g.as_type() { match t.kind() { ty::Adt(a, _) => { ts.insert(tcx.def_path_str(a.did())); } ty::RawPtr(..) | ty::FnPtr(..) | ty::Dynamic(..) => { ts.insert(t.to_string()); } _ => {} } }
                        }
                    }
                    adts.push(J::o(vec![("path", J::S(tcx.def_path_str(d))), ("crate", J::S(tcx.crate_name(c).to_string())), ("types", strs(&ts))]));
                }
                DefKind::Impl { of_trait } => {
                    let me = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait { tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_norm_wip().to_string()) } else { None };
                    let unsafe_impl = of_trait && tcx.impl_trait_header(d).safety.is_unsafe() && !tcx.def_span(d).allows_unsafe();
                    impls.push(J::o(vec![("self", J::S(tyname(me))), ("trait", tr.map(J::S).unwrap_or(J::Null)), ("span", J::S(loc(tcx, tcx.def_span(d)))), ("unsafe", J::B(unsafe_impl)),
                        ("path", J::S(tcx.def_path_str(d)))]));
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(d) && c != LOCAL_CRATE {
                        if k == DefKind::AssocFn && tcx.trait_of_assoc(d).is_some() { continue; }
                    }
                    if c == LOCAL_CRATE && !tcx.is_mir_available(d) { continue; }
                    if tcx.is_constructor(d) { continue; }
                    let mut f = vec![("path", J::S(tcx.def_path_str(d))), ("crate", J::S(tcx.crate_name(c).to_string())), ("span", J::S(loc(tcx, tcx.def_span(d)))), ("kind", J::s(format!("{k:?}")))];
                    if k != DefKind::Closure {
                        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                        f.push(("ins", J::A(sig.inputs().iter().map(|t| J::S(tyname(*t))).collect())));
                        f.push(("out", J::S(tyname(sig.output()))));
                        f.push(("unsafe", J::B(sig.safety().is_unsafe())));
                        f.push(("name", J::S(tcx.item_name(d).to_string())));
                        // an associated function of a trait implementation is as visible as the trait
                        let im = tcx.impl_of_assoc(d);
                        let tr = im.and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| t.instantiate_identity().skip_norm_wip());
                        if let Some(i) = im { f.push(("self", J::S(tyname(tcx.type_of(i).instantiate_identity().skip_norm_wip())))); }
                        f.push(("trait", tr.map(|t| J::S(t.to_string())).unwrap_or(J::Null)));
                        f.push(("public", J::B(tr.is_some() || tcx.trait_of_assoc(d).is_some() || tcx.visibility(d).is_public())));
                    }
                    if tcx.is_mir_available(d) {
                        let body = tcx.optimized_mir(d);
                        let mut v = V { tcx, body, calls: BTreeSet::new(), unsafe_ops: BTreeSet::new(), statics: BTreeSet::new(), builds: BTreeSet::new(), types: BTreeSet::new(), refs: BTreeSet::new(), writes: BTreeSet::new(), foreign: BTreeSet::new() };
                        for l in body.local_decls.iter() { v.types_in(l.ty); }
                        v.visit_body(body);
                        for c in body.required_consts.iter().flatten() { v.constant(c); }
                        f.push(("calls", J::A(v.calls.iter().map(|(a, _, g)| J::A(vec![J::S(a.clone()), J::S(g.clone())])).collect())));
                        f.push(("unsafe_ops", strs(&v.unsafe_ops)));
                        f.push(("statics", strs(&v.statics)));
                        f.push(("builds", strs(&v.builds)));
                        f.push(("types", strs(&v.types)));
                        f.push(("refs", strs(&v.refs)));
                        f.push(("writes", strs(&v.writes)));
                        f.push(("foreign", strs(&v.foreign)));
                        f.push(("blocks", J::N(body.basic_blocks.len() as i128)));
                    }
                    fns.push(J::o(f));
                }
                _ => {}
            }
        }
    }
    let j = J::o(vec![("fns", J::A(fns)), ("impls", J::A(impls)), ("statics", J::A(statics)), ("adts", J::A(adts)), ("unsafe_blocks", strs(&h.found)), ("crates", J::A(externs))]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}
