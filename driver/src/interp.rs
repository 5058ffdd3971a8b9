//! Interprocedural dataflow over monomorphised MIR: abstract states are partitions (guard + abstract memory).
use crate::bits::*;
use crate::state::*;
use rustc_abi::{FieldIdx, FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Debug)]
pub enum Stop {
    Split(B),
    Stuck(String),
    Fault(String),
}
pub type R<T> = Result<T, Stop>;
pub fn stuck<T>(s: impl Into<String>) -> R<T> { Err(Stop::Stuck(s.into())) }
pub fn fault<T>(s: impl Into<String>) -> R<T> { Err(Stop::Fault(s.into())) }

pub struct BodyInfo<'tcx> {
    pub body: &'tcx Body<'tcx>,
    pub rpo: Vec<u32>,
    pub join: Vec<bool>,
    pub layouts: Vec<TyAndLayout<'tcx>>,
    pub always: Vec<bool>,
    /// per block: locals nobody can read any more (their address is never taken either)
    pub dead: Vec<Vec<usize>>,
}
/// For every block the locals that are not read after its start before they are wholly assigned, and that are never borrowed.
fn dead_locals(body: &Body<'_>) -> Vec<Vec<usize>> {
    use rustc_middle::mir::visit::{MutatingUseContext as M, NonMutatingUseContext as N, PlaceContext as P, Visitor};
    struct Uses { events: Vec<(usize, bool)>, borrowed: Vec<bool> }
    impl<'a> Visitor<'a> for Uses {
        fn visit_place(&mut self, p: &Place<'a>, c: P, l: Location) {
            let i = p.local.as_usize();
            match c {
                P::NonMutatingUse(N::SharedBorrow | N::FakeBorrow | N::RawBorrow) | P::MutatingUse(M::Borrow | M::RawBorrow) if !p.is_indirect() => { self.borrowed[i] = true; }
                P::MutatingUse(M::Store | M::Call) if p.projection.is_empty() => { self.events.push((i, false)); return; }
                _ => {}
            }
            self.events.push((i, true));
            for (_, e) in p.iter_projections() { if let ProjectionElem::Index(x) = e { self.events.push((x.as_usize(), true)); } }
            let _ = l;
        }
        fn visit_local(&mut self, x: Local, c: P, _l: Location) {
            if !matches!(c, P::NonUse(_)) { self.events.push((x.as_usize(), true)); }
        }
    }
    let nl = body.local_decls.len();
    let nb = body.basic_blocks.len();
    let mut u = Uses { events: vec![], borrowed: vec![false; nl] };
    // per block: read before any whole assignment, and wholly assigned
    let mut reads = vec![vec![false; nl]; nb];
    let mut kills = vec![vec![false; nl]; nb];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let b = bb.as_usize();
        for k in 0..=data.statements.len() {
            let at = Location { block: bb, statement_index: k };
            u.events.clear();
            if k < data.statements.len() { u.visit_statement(&data.statements[k], at); } else { u.visit_terminator(data.terminator(), at); }
            // reads happen before the assignment of the same statement
            for &(l, read) in &u.events { if read && !kills[b][l] { reads[b][l] = true; } }
            // (a call's destination is only assigned when it returns: not counted as one)
            if k < data.statements.len() { for &(l, read) in &u.events { if !read { kills[b][l] = true; } } }
        }
        if matches!(data.terminator().kind, TerminatorKind::Return) && !kills[b][0] { reads[b][0] = true; }
    }
    let mut live = reads.clone();
    loop {
        let mut again = false;
        for (bb, data) in traversal::postorder(body) {
            let b = bb.as_usize();
            for s in data.terminator().successors() {
                let s = s.as_usize();
                for l in 0..nl { if live[s][l] && !live[b][l] && !kills[b][l] { live[b][l] = true; again = true; } }
            }
        }
        if !again { break; }
    }
    (0..nb).map(|b| (0..nl).filter(|&l| !live[b][l] && !u.borrowed[l]).collect()).collect()
}
#[derive(Clone)]
pub struct PlaceV<'tcx> {
    pub addr: u64,
    pub meta: Option<Sc>,
    pub layout: TyAndLayout<'tcx>,
}
#[derive(Clone)]
pub struct Item {
    pub st: State,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub locals: Vec<u64>,
    /// one half of a split: must not be merged with the other half before it moves on
    pub hold: bool,
}
pub struct Terminal {
    pub guard: Guard,
    pub kind: &'static str,
    pub msg: String,
    pub trace: Vec<String>,
    pub approx: bool,
}
pub struct Token { pub kind: String, pub bits: Sc, pub signed: bool, pub opts: String }

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub globals: HashMap<u64, Rc<Blob>>,
    pub galloc: HashMap<AllocId, u64>,
    pub gnext: u64,
    pub fns: Vec<Instance<'tcx>>,
    pub fn_ix: HashMap<Instance<'tcx>, u64>,
    pub bodies: HashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>,
    pub consts: HashMap<(Const<'tcx>, Ty<'tcx>), Blob>,
    pub layouts: HashMap<Ty<'tcx>, TyAndLayout<'tcx>>,
    pub terminals: Vec<Terminal>,
    pub stack: Vec<(Instance<'tcx>, Span)>,
    pub steps: u64,
    pub budget: u64,
    pub splits: u64,
    pub merges: u64,
    pub cover: HashMap<Instance<'tcx>, BTreeSet<u32>>,
    pub effects: BTreeSet<String>,
    pub tokens: Vec<Token>,
    pub paths: HashMap<DefId, Rc<String>>,
    pub items_max: usize,
    pub fmt_helper: Option<DefId>,
    pub string_helper: Option<DefId>,
    pub typeids: HashMap<Ty<'tcx>, u64>,
    pub debug: bool,
    pub started: std::time::Instant,
    pub seconds: u64,
    pub ends: HashMap<(&'static str, String), u64>,
    pub overdue: bool,
    pub redirect: Option<(Instance<'tcx>, Vec<(Blob, TyAndLayout<'tcx>)>)>,
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx, env: TypingEnv::fully_monomorphized(), globals: HashMap::new(), galloc: HashMap::new(), gnext: GLOBAL_BASE,
            fns: vec![], fn_ix: HashMap::new(), bodies: HashMap::new(), consts: HashMap::new(), layouts: HashMap::new(),
            terminals: vec![], stack: vec![], steps: 0, budget: 40_000_000, splits: 0, merges: 0, cover: HashMap::new(),
            effects: BTreeSet::new(), tokens: vec![], paths: HashMap::new(), items_max: 4096, fmt_helper: None, string_helper: None,
            typeids: HashMap::new(), debug: std::env::var("VP_DEBUG").is_ok(), started: std::time::Instant::now(), seconds: 60, ends: HashMap::new(), overdue: false, redirect: None,
        }
    }
    pub fn cx(&self) -> LayoutCx<'tcx> { LayoutCx::new(self.tcx, self.env) }
    pub fn layout(&mut self, t: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        if let Some(l) = self.layouts.get(&t) { return Ok(*l); }
        match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => { self.layouts.insert(t, l); Ok(l) }
            Err(e) => stuck(format!("layout of {t}: {e:?}")),
        }
    }
    pub fn path(&mut self, d: DefId) -> Rc<String> {
        if let Some(p) = self.paths.get(&d) { return p.clone(); }
        let p = Rc::new(self.tcx.def_path_str(d));
        self.paths.insert(d, p.clone());
        p
    }
    pub fn span_str(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    pub fn trace(&self) -> Vec<String> {
        self.stack.iter().rev().take(40).map(|(i, s)| format!("{} at {}", i, self.span_str(*s))).collect()
    }
    pub fn terminal(&mut self, st: &State, kind: &'static str, msg: String) {
        let trace = self.trace();
        // an analysis that loses its way leaves many ends of one sort
        let n = self.ends.entry((kind, trace.first().cloned().unwrap_or_default())).or_insert(0);
        *n += 1;
        if kind == "stuck" {
            if *n > 5000 { self.overdue = true; }
            if *n > 5 { return; }
        } else if *n > 2000 { return; }
        self.terminals.push(Terminal { guard: st.guard.clone(), kind, msg, trace, approx: st.approx });
    }

    // ---- memory --------------------------------------------------------------------------------------------
    pub fn blob<'a>(&'a self, st: &'a State, addr: u64) -> Option<&'a Rc<Blob>> {
        let id = addr >> SLOT;
        st.mem.get(&id).or_else(|| self.globals.get(&id))
    }
    pub fn read(&self, st: &State, addr: u64, n: usize) -> R<Blob> {
        if n == 0 { return Ok(Blob::uninit(0)); }
        let off = (addr & ((1 << SLOT) - 1)) as usize;
        match self.blob(st, addr) {
            Some(b) if off + n <= b.len() => Ok(b.slice(off, n)),
            Some(b) => fault(format!("read of {n} bytes at offset {off} of an allocation of {} bytes", b.len())),
            None => fault(format!("read through dangling address {addr:#x}")),
        }
    }
    pub fn read_sc(&self, st: &State, addr: u64, n: usize) -> R<Sc> {
        let off = (addr & ((1 << SLOT) - 1)) as usize;
        match self.blob(st, addr) {
            Some(b) if off + n <= b.len() => Ok(b.scalar(off, n)),
            Some(b) => fault(format!("read of {n} bytes at offset {off} of an allocation of {} bytes", b.len())),
            None => fault(format!("read through dangling address {addr:#x}")),
        }
    }
    pub fn write(&mut self, st: &mut State, addr: u64, b: &Blob) -> R<()> {
        let n = b.len();
        if n == 0 { return Ok(()); }
        let off = (addr & ((1 << SLOT) - 1)) as usize;
        let id = addr >> SLOT;
        if !st.mem.contains_key(&id) {
            match self.globals.get(&id) {
                Some(g) => {
                    let g = g.clone();
                    let top = self.stack.last().map(|(i, s)| format!("{} at {}", i, self.span_str(*s))).unwrap_or_default();
                    self.effects.insert(format!("write to a static in {top}"));
                    st.mem.insert(id, g);
                }
                None => return fault(format!("write through dangling address {addr:#x}")),
            }
        }
        let m = st.mem.get_mut(&id).unwrap();
        if off + n > m.len() { return fault(format!("write of {n} bytes at offset {off} of an allocation of {} bytes", m.len())); }
        Rc::make_mut(m).write(off, b);
        Ok(())
    }
    pub fn konst(&self, st: &State, s: &Sc) -> R<u128> {
        if let Sc::C(v, _) = s { return Ok(*v); }
        match st.simp_sc(s) {
            Sc::C(v, _) => Ok(v),
            Sc::S(v) => {
                for b in v { if !is_const(b) { if is_special(b) { return stuck("an address, length or amount is unknown"); } return Err(Stop::Split(b)); } }
                unreachable!()
            }
        }
    }

    // ---- globals -------------------------------------------------------------------------------------------
    pub fn fn_addr(&mut self, i: Instance<'tcx>) -> u64 {
        if let Some(&a) = self.fn_ix.get(&i) { return a; }
        let a = (FN_BASE + self.fns.len() as u64) << SLOT;
        self.fns.push(i);
        self.fn_ix.insert(i, a);
        a
    }
    pub fn fn_at(&self, addr: u64) -> Option<Instance<'tcx>> {
        let id = addr >> SLOT;
        if id >= FN_BASE && addr & ((1 << SLOT) - 1) == 0 { self.fns.get((id - FN_BASE) as usize).copied() } else { None }
    }
    pub fn global(&mut self, id: AllocId) -> R<u64> {
        if let Some(&a) = self.galloc.get(&id) { return Ok(a); }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => { let a = self.fn_addr(instance); self.galloc.insert(id, a); Ok(a) }
            GlobalAlloc::VTable(t, d) => {
                let a = self.vtable(t, d.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p)))?;
                self.galloc.insert(id, a);
                Ok(a)
            }
            GlobalAlloc::Static(def) => {
                let name = self.tcx.def_path_str(def);
                if self.tcx.is_foreign_item(def) { self.effects.insert(format!("foreign static {name}")); return stuck(format!("foreign static {name}")); }
                if self.tcx.is_thread_local_static(def) { self.effects.insert(format!("thread-local static {name}")); }
                if self.tcx.is_mutable_static(def) { self.effects.insert(format!("mutable static {name}")); }
                let sty = self.tcx.type_of(def).instantiate_identity().skip_norm_wip();
                if !sty.is_freeze(self.tcx, self.env) { self.effects.insert(format!("interior-mutable static {name}")); }
                match self.tcx.eval_static_initializer(def) {
                    Ok(c) => self.import(id, c.inner()),
                    Err(_) => stuck(format!("static {name}")),
                }
            }
            GlobalAlloc::Memory(c) => self.import(id, c.inner()),
            GlobalAlloc::TypeId { ty } => {
                let n = self.typeids.len() as u64;
                let k = *self.typeids.entry(ty).or_insert(n);
                let a = (TYPE_BASE + k) << SLOT;
                self.galloc.insert(id, a);
                Ok(a)
            }
        }
    }
    fn import(&mut self, id: AllocId, a: &rustc_middle::mir::interpret::Allocation) -> R<u64> {
        let slot = self.gnext;
        self.gnext += 1;
        let addr = slot << SLOT;
        self.galloc.insert(id, addr);
        let b = self.import_bytes(a, 0, a.size().bytes() as usize)?;
        self.globals.insert(slot, Rc::new(b));
        Ok(addr)
    }
    fn import_bytes(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: usize, n: usize) -> R<Blob> {
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
        let mut b = Blob::bytes(raw);
        for i in 0..n {
            if a.init_mask().is_range_initialized(rustc_middle::mir::interpret::alloc_range(Size::from_bytes(off + i), Size::from_bytes(1))).is_err() { b.kind[i] = 1; b.data[i] = 0; }
        }
        let ptrs: Vec<(usize, AllocId)> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes() as usize, p.alloc_id())).collect();
        for (o, p) in ptrs {
            if o >= off && o + 8 <= off + n {
                let mut v = [0u8; 8];
                v.copy_from_slice(&b.data[o - off..o - off + 8]);
                let addr = self.global(p)?.wrapping_add(u64::from_le_bytes(v));
                b.write(o - off, &Blob::bytes(&addr.to_le_bytes()));
            }
        }
        Ok(b)
    }
    pub fn vtable(&mut self, t: Ty<'tcx>, tr: Option<ty::ExistentialTraitRef<'tcx>>) -> R<u64> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        let id = self.tcx.vtable_allocation((t, tr));
        self.global(id)
    }
    pub fn static_str(&mut self, s: &str) -> (u64, u64) {
        let slot = self.gnext;
        self.gnext += 1;
        self.globals.insert(slot, Rc::new(Blob::bytes(s.as_bytes())));
        (slot << SLOT, s.len() as u64)
    }

    // ---- bodies --------------------------------------------------------------------------------------------
    pub fn body(&mut self, i: Instance<'tcx>) -> R<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&i) { return Ok(b.clone()); }
        let tcx = self.tcx;
        if let InstanceKind::Item(d) = i.def {
            if !tcx.is_mir_available(d) {
                let p = tcx.def_path_str(d);
                return stuck(format!("no MIR for {p}"));
            }
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) && false { }
        }
        let raw = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let body: &'tcx Body<'tcx> = tcx.arena.alloc(body);
        let n = body.basic_blocks.len();
        let mut rpo = vec![u32::MAX; n];
        for (k, (bb, _)) in traversal::reverse_postorder(body).enumerate() { rpo[bb.as_usize()] = k as u32; }
        let preds = body.basic_blocks.predecessors();
        let join = (0..n).map(|b| preds[BasicBlock::from_usize(b)].len() > 1).collect();
        let mut always = vec![true; body.local_decls.len()];
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements { if let StatementKind::StorageLive(l) | StatementKind::StorageDead(l) = s.kind { always[l.as_usize()] = false; } }
        }
        let mut layouts = vec![];
        for d in body.local_decls.iter() { layouts.push(self.layout(d.ty)?); }
        let dead = dead_locals(body);
        let info = Rc::new(BodyInfo { body, rpo, join, layouts, always, dead });
        self.bodies.insert(i, info.clone());
        Ok(info)
    }

    // ---- places and operands -------------------------------------------------------------------------------
    pub fn local_place(&self, bi: &BodyInfo<'tcx>, it: &Item, l: Local) -> R<PlaceV<'tcx>> {
        let a = it.locals[l.as_usize()];
        if a == 0 { return fault(format!("use of dead local {l:?}")); }
        Ok(PlaceV { addr: a, meta: None, layout: bi.layouts[l.as_usize()] })
    }
    pub fn place(&mut self, bi: &BodyInfo<'tcx>, it: &Item, p: Place<'tcx>) -> R<PlaceV<'tcx>> {
        let mut cur = self.local_place(bi, it, p.local)?;
        for e in p.projection.iter() { cur = self.project(bi, it, cur, e)?; }
        Ok(cur)
    }
    pub fn deref(&mut self, st: &State, p: &PlaceV<'tcx>) -> R<PlaceV<'tcx>> {
        let inner = match p.layout.ty.kind() {
            ty::Ref(_, t, _) => *t,
            ty::RawPtr(t, _) => *t,
            ty::Adt(..) if p.layout.ty.is_box() => p.layout.ty.expect_boxed_ty(),
            _ => return stuck(format!("deref of {}", p.layout.ty)),
        };
        let layout = self.layout(inner)?;
        let a = self.read_sc(st, p.addr, 8)?;
        let addr = self.konst(st, &a)? as u64;
        let meta = if layout.is_unsized() { Some(self.read_sc(st, p.addr + 8, 8)?) } else { None };
        Ok(PlaceV { addr, meta, layout })
    }
    pub fn len_of(&self, st: &State, p: &PlaceV<'tcx>) -> R<u64> {
        match p.layout.ty.kind() {
            ty::Array(..) => match p.layout.fields { FieldsShape::Array { count, .. } => Ok(count), _ => stuck("array shape") },
            ty::Slice(_) | ty::Str => Ok(self.konst(st, p.meta.as_ref().unwrap())? as u64),
            _ => stuck("length of a non-slice"),
        }
    }
    pub fn field(&self, p: &PlaceV<'tcx>, i: usize) -> R<PlaceV<'tcx>> {
        let cx = self.cx();
        let l = p.layout.field(&cx, i);
        let off = p.layout.fields.offset(i).bytes();
        let meta = if l.is_unsized() { p.meta.clone() } else { None };
        if l.is_unsized() {
            // a dyn tail may need more alignment than the static offset says
            if let ty::Dynamic(..) = self.tcx.struct_tail_for_codegen(l.ty, self.env).kind() {
                if off != 0 {
                    if let Some(Sc::C(vt, _)) = &meta {
                        if let Some(b) = self.globals.get(&((*vt as u64) >> SLOT)) {
                            if let Sc::C(al, _) = b.scalar(16, 8) {
                                let al = al as u64;
                                let off = (off + al - 1) / al * al;
                                return Ok(PlaceV { addr: p.addr + off, meta, layout: l });
                            }
                        }
                    }
                }
            }
        }
        Ok(PlaceV { addr: p.addr + off, meta, layout: l })
    }
    pub fn index(&mut self, p: &PlaceV<'tcx>, i: u64) -> R<PlaceV<'tcx>> {
        let et = match p.layout.ty.kind() { ty::Array(t, _) | ty::Slice(t) => *t, ty::Str => self.tcx.types.u8, _ => return stuck("index of a non-array") };
        let l = self.layout(et)?;
        Ok(PlaceV { addr: p.addr.wrapping_add(i.wrapping_mul(l.size.bytes())), meta: None, layout: l })
    }
    pub fn project(&mut self, bi: &BodyInfo<'tcx>, it: &Item, p: PlaceV<'tcx>, e: PlaceElem<'tcx>) -> R<PlaceV<'tcx>> {
        match e {
            ProjectionElem::Deref => self.deref(&it.st, &p),
            ProjectionElem::Field(f, _) => self.field(&p, f.as_usize()),
            ProjectionElem::Index(l) => {
                let ip = self.local_place(bi, it, l)?;
                let s = self.read_sc(&it.st, ip.addr, 8)?;
                let i = self.konst(&it.st, &s)? as u64;
                let n = self.len_of(&it.st, &p)?;
                if i >= n { return fault(format!("index {i} of {n}")); }
                self.index(&p, i)
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let i = if from_end { self.len_of(&it.st, &p)?.wrapping_sub(offset) } else { offset };
                self.index(&p, i)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let n = self.len_of(&it.st, &p)?;
                let end = if from_end { n - to } else { to };
                let base = self.index(&p, from)?;
                match p.layout.ty.kind() {
                    ty::Array(t, _) => {
                        let l = self.layout(Ty::new_array(self.tcx, *t, end - from))?;
                        Ok(PlaceV { addr: base.addr, meta: None, layout: l })
                    }
                    _ => Ok(PlaceV { addr: base.addr, meta: Some(Sc::C((end - from) as u128, 64)), layout: p.layout }),
                }
            }
            ProjectionElem::Downcast(_, v) => { let l = p.layout.for_variant(&self.cx(), v); Ok(PlaceV { layout: l, ..p }) }
            ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => { let l = self.layout(t)?; Ok(PlaceV { layout: l, ..p }) }
            _ => stuck("projection"),
        }
    }
    pub fn const_blob(&mut self, c: &ConstOperand<'tcx>) -> R<(Blob, TyAndLayout<'tcx>)> {
        let t = c.const_.ty();
        let layout = self.layout(t)?;
        if let Some(b) = self.consts.get(&(c.const_, t)) { return Ok((b.clone(), layout)); }
        if layout.is_zst() { return Ok((Blob::uninit(0), layout)); }
        let v = match c.const_.eval(self.tcx, self.env, c.span) { Ok(v) => v, Err(e) => return stuck(format!("constant evaluation failed: {e:?}")) };
        let n = layout.size.bytes() as usize;
        let b = match v {
            ConstValue::ZeroSized => Blob::uninit(0),
            ConstValue::Scalar(s) => self.scalar_blob(s)?,
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.global(alloc_id)?;
                let mut b = Blob::bytes(&a.to_le_bytes());
                let m = Blob::bytes(&meta.to_le_bytes());
                b.data.extend(m.data); b.kind.extend(m.kind);
                b
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match self.tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, _ => return stuck("indirect constant") };
                self.import_bytes(a.inner(), offset.bytes() as usize, n)?
            }
        };
        self.consts.insert((c.const_, t), b.clone());
        Ok((b, layout))
    }
    fn scalar_blob(&mut self, s: Scalar) -> R<Blob> {
        match s {
            Scalar::Int(i) => Ok(Blob::from_scalar(&Sc::C(i.to_bits_unchecked(), (i.size().bytes() * 8) as u32))),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.global(prov.alloc_id())?.wrapping_add(off.bytes());
                Ok(Blob::bytes(&a.to_le_bytes()))
            }
        }
    }
    pub fn operand(&mut self, bi: &BodyInfo<'tcx>, it: &Item, o: &Operand<'tcx>) -> R<(Blob, TyAndLayout<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pv = self.place(bi, it, *p)?;
                let n = pv.layout.size.bytes() as usize;
                Ok((self.read(&it.st, pv.addr, n)?, pv.layout))
            }
            Operand::Constant(c) => self.const_blob(c),
            Operand::RuntimeChecks(k) => {
                let v = matches!(k, RuntimeChecks::OverflowChecks);
                Ok((Blob::bytes(&[v as u8]), self.layout(self.tcx.types.bool)?))
            }
        }
    }
    pub fn operand_sc(&mut self, bi: &BodyInfo<'tcx>, it: &Item, o: &Operand<'tcx>) -> R<(Sc, TyAndLayout<'tcx>)> {
        if let Operand::Copy(p) | Operand::Move(p) = o {
            let pv = self.place(bi, it, *p)?;
            let n = pv.layout.size.bytes() as usize;
            return Ok((self.read_sc(&it.st, pv.addr, n)?, pv.layout));
        }
        let (b, l) = self.operand(bi, it, o)?;
        Ok((b.scalar(0, b.len()), l))
    }
    /// a bool result read back: bit 0
    pub fn write_discr(&mut self, st: &mut State, p: &PlaceV<'tcx>, v: VariantIdx) -> R<()> {
        match &p.layout.variants {
            Variants::Empty => Ok(()),
            Variants::Single { .. } => Ok(()),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let size = tag.size(&self.cx()).bytes() as usize;
                let val = match tag_encoding {
                    TagEncoding::Direct => { let d = p.layout.ty.discriminant_for_variant(self.tcx, v).unwrap(); d.val }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant { return Ok(()); }
                        let rel = v.as_u32() - niche_variants.start.as_u32();
                        niche_start.wrapping_add(rel as u128)
                    }
                };
                let off = p.layout.fields.offset(tag_field.as_usize()).bytes();
                self.write(st, p.addr + off, &Blob::from_scalar(&Sc::c(val, size as u32 * 8)))
            }
        }
    }
    /// the discriminant as a scalar of the discriminant type
    pub fn read_discr(&mut self, st: &State, p: &PlaceV<'tcx>) -> R<Sc> {
        let dt = p.layout.ty.discriminant_ty(self.tcx);
        let dl = self.layout(dt)?;
        let w = dl.size.bits() as u32;
        match &p.layout.variants {
            Variants::Empty => fault("discriminant of an uninhabited type"),
            Variants::Single { index } => {
                let v = match p.layout.ty.discriminant_for_variant(self.tcx, *index) { Some(d) => d.val, None => 0 };
                Ok(Sc::c(v, w))
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let size = tag.size(&self.cx()).bytes() as usize;
                let off = p.layout.fields.offset(tag_field.as_usize()).bytes();
                let t = self.read_sc(st, p.addr + off, size)?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = match tag.primitive() { rustc_abi::Primitive::Int(_, s) => s, _ => false };
                        Ok(t.resize(w, signed && dt.is_signed()))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let t = st.simp_sc(&t);
                        let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128 + 1;
                        if let Sc::C(v, tw) = t {
                            let rel = v.wrapping_sub(*niche_start) & mask(tw);
                            let idx = if rel < n { niche_variants.start.as_u32() as u128 + rel } else { untagged_variant.as_u32() as u128 };
                            return Ok(Sc::c(idx, w));
                        }
                        if let Sc::S(v) = &t { if v.iter().any(|&b| is_special(b)) { return stuck("discriminant is unknown"); } }
                        let tw = t.width();
                        for k in 0..n {
                            let b = st.simp(Sc::eq(&t, &Sc::c(niche_start.wrapping_add(k), tw)));
                            if b == ONE { return Ok(Sc::c(niche_variants.start.as_u32() as u128 + k, w)); }
                            if b == ZERO { continue; }
                            return Err(Stop::Split(b));
                        }
                        Ok(Sc::c(untagged_variant.as_u32() as u128, w))
                    }
                }
            }
        }
    }
    pub fn size_align_of_val(&mut self, st: &State, p: &PlaceV<'tcx>) -> R<(u64, u64)> {
        if p.layout.is_sized() { return Ok((p.layout.size.bytes(), p.layout.align.abi.bytes())); }
        match p.layout.ty.kind() {
            ty::Slice(t) => { let l = self.layout(*t)?; Ok((l.size.bytes() * self.len_of(st, p)?, l.align.abi.bytes())) }
            ty::Str => Ok((self.len_of(st, p)?, 1)),
            ty::Dynamic(..) => {
                let vt = self.konst(st, p.meta.as_ref().unwrap())? as u64;
                let s = self.read_sc(st, vt + 8, 8)?.konst().unwrap_or(0) as u64;
                let a = self.read_sc(st, vt + 16, 8)?.konst().unwrap_or(1) as u64;
                Ok((s, a))
            }
            _ => stuck(format!("size of {}", p.layout.ty)),
        }
    }

    // ---- rvalues -------------------------------------------------------------------------------------------
    pub fn binop(&mut self, st: &State, op: BinOp, a: &Sc, b: &Sc, lt: Ty<'tcx>) -> R<Sc> {
        let signed = lt.is_signed();
        use BinOp::*;
        let n = a.width();
        Ok(match op {
            Add | AddUnchecked => Sc::add(a, b).0,
            Sub | SubUnchecked => Sc::sub(a, b).0,
            Mul | MulUnchecked => Sc::mul(a, b, signed).0,
            BitXor => Sc::map2(a, b, xor),
            BitAnd => Sc::map2(a, b, and),
            BitOr => Sc::map2(a, b, or),
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let k = (self.konst(st, b)? & (n as u128 - 1)) as u32;
                if matches!(op, Shl | ShlUnchecked) { a.shl(k) } else { a.shr(k, signed) }
            }
            Eq => Sc::boolean(Sc::eq(a, b)),
            Ne => Sc::boolean(not(Sc::eq(a, b))),
            Lt => Sc::boolean(Sc::lt(a, b, signed)),
            Ge => Sc::boolean(not(Sc::lt(a, b, signed))),
            Gt => Sc::boolean(Sc::lt(b, a, signed)),
            Le => Sc::boolean(not(Sc::lt(b, a, signed))),
            Cmp => {
                let l = st.simp(Sc::lt(a, b, signed));
                let e = st.simp(Sc::eq(a, b));
                let mut v = vec![not(e)];
                for _ in 1..8 { v.push(l); }
                Sc::from_bits(v)
            }
            Div | Rem => {
                let a = st.simp_sc(a);
                let b = st.simp_sc(b);
                match (&a, &b) {
                    (_, Sc::C(0, _)) => return fault("division by zero"),
                    (Sc::C(x, _), Sc::C(y, _)) => {
                        if signed {
                            let (x, y) = (sext(*x, n), sext(*y, n));
                            Sc::c(if op == Div { x.wrapping_div(y) } else { x.wrapping_rem(y) } as u128, n)
                        } else { Sc::c(if op == Div { x / y } else { x % y }, n) }
                    }
                    (s, Sc::C(y, _)) if y.is_power_of_two() && (!signed || s.bit(n - 1) == ZERO) && !(signed && *y == 1 << (n - 1)) => {
                        let k = y.trailing_zeros();
                        if op == Div { s.shr(k, false) } else { s.resize(k.max(1), false).resize(n, false).clone_and_mask(k) }
                    }
                    (s, Sc::C(y, _)) if !signed => {
                        // long division, for few symbolic bits
                        udivrem(s, *y, n, op == Div)
                    }
                    _ => Sc::top(n),
                }
            }
            Offset => return stuck("offset handled elsewhere"),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => return stuck("overflow op handled elsewhere"),
        })
    }
    pub fn with_overflow(&mut self, op: BinOp, a: &Sc, b: &Sc, signed: bool) -> (Sc, B) {
        match op {
            BinOp::AddWithOverflow => { let (r, u, s) = Sc::add(a, b); (r, if signed { s } else { u }) }
            BinOp::SubWithOverflow => { let (r, u, s) = Sc::sub(a, b); (r, if signed { s } else { u }) }
            _ => Sc::mul(a, b, signed),
        }
    }
    fn unsize(&mut self, st: &State, src: &Blob, s: Ty<'tcx>, d: Ty<'tcx>) -> R<Blob> {
        let ptr_inner = |t: Ty<'tcx>| match t.kind() { ty::Ref(_, t, _) => Some(*t), ty::RawPtr(t, _) => Some(*t), _ => None };
        if let (Some(si), Some(di)) = (ptr_inner(s), ptr_inner(d)) {
            let (sp, dp) = self.tcx.struct_lockstep_tails_for_codegen(si, di, self.env);
            let a = src.slice(0, 8);
            let meta: u64 = match (sp.kind(), dp.kind()) {
                (ty::Array(_, n), ty::Slice(_)) => n.try_to_target_usize(self.tcx).unwrap(),
                (ty::Dynamic(da, _), ty::Dynamic(db, _)) => {
                    if da == db || da.principal() == db.principal() { return Ok(src.clone()); }
                    return stuck("trait upcast");
                }
                (_, ty::Dynamic(db, _)) => self.vtable(sp, db.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p)))?,
                _ => return stuck(format!("unsize {s} to {d}")),
            };
            let mut r = a;
            let m = Blob::bytes(&meta.to_le_bytes());
            r.data.extend(m.data); r.kind.extend(m.kind);
            return Ok(r);
        }
        // structs: coerce the one field that changes
        let (sl, dl) = (self.layout(s)?, self.layout(d)?);
        let mut out = Blob::uninit(dl.size.bytes() as usize);
        for i in 0..sl.fields.count() {
            let sf = sl.field(&self.cx(), i);
            let df = dl.field(&self.cx(), i);
            if df.is_zst() { continue; }
            let b = src.slice(sl.fields.offset(i).bytes() as usize, sf.size.bytes() as usize);
            let b = if sf.ty == df.ty { b } else { self.unsize(st, &b, sf.ty, df.ty)? };
            out.write(dl.fields.offset(i).bytes() as usize, &b);
        }
        Ok(out)
    }
    pub fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, span: Span) -> Instance<'tcx> {
        Instance::expect_resolve(self.tcx, self.env, d, args, span)
    }
    pub fn cast(&mut self, st: &State, k: CastKind, b: Blob, sl: TyAndLayout<'tcx>, dl: TyAndLayout<'tcx>, span: Span) -> R<Blob> {
        let dn = dl.size.bytes() as usize;
        Ok(match k {
            CastKind::IntToInt => {
                let s = b.scalar(0, b.len());
                Blob::from_scalar(&s.resize(dn as u32 * 8, sl.ty.is_signed()))
            }
            CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat => Blob::from_scalar(&Sc::top(dn as u32 * 8)),
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance | CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                if b.len() == dn { b } else if b.len() > dn { b.slice(0, dn) } else { return stuck("cast to a wider pointer"); }
            }
            CastKind::PointerCoercion(c, _) => match c {
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(d, a) = *sl.ty.kind() else { return stuck("reify") };
                    let a = a.no_bound_vars().unwrap();
                    let i = Instance::resolve_for_fn_ptr(self.tcx, self.env, d, a).unwrap();
                    let a = self.fn_addr(i);
                    Blob::bytes(&a.to_le_bytes())
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, a) = *sl.ty.kind() else { return stuck("closure fn pointer") };
                    let i = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                    let a = self.fn_addr(i);
                    Blob::bytes(&a.to_le_bytes())
                }
                PointerCoercion::Unsize => self.unsize(st, &b, sl.ty, dl.ty)?,
                _ => { let _ = span; b }
            },
        })
    }
    pub fn place_ptr(&self, p: &PlaceV<'tcx>) -> Blob {
        let mut b = Blob::bytes(&p.addr.to_le_bytes());
        if let Some(m) = &p.meta {
            let m = Blob::from_scalar(m);
            let mut r = Blob::uninit(16);
            r.write(0, &b);
            r.write(8, &m);
            b = r;
        }
        b
    }
    fn assign(&mut self, bi: &BodyInfo<'tcx>, it: &mut Item, p: Place<'tcx>, rv: &Rvalue<'tcx>, span: Span) -> R<()> {
        let dst = self.place(bi, it, p)?;
        let dn = dst.layout.size.bytes() as usize;
        let out: Blob = match rv {
            Rvalue::Use(o, _) => self.operand(bi, it, o)?.0,
            Rvalue::CopyForDeref(p) => { let pv = self.place(bi, it, *p)?; self.read(&it.st, pv.addr, pv.layout.size.bytes() as usize)? }
            Rvalue::Repeat(o, n) => {
                let (b, _) = self.operand(bi, it, o)?;
                let n = n.try_to_target_usize(self.tcx).ok_or_else(|| Stop::Stuck("repeat count".into()))? as usize;
                let mut out = Blob::uninit(b.len() * n);
                if b.sym.is_empty() && b.len() == 1 { out.data.fill(b.data[0]); out.kind.fill(b.kind[0]); }
                else { for i in 0..n { out.write(i * b.len(), &b); } }
                out
            }
            Rvalue::Ref(_, _, q) | Rvalue::RawPtr(_, q) => { let pv = self.place(bi, it, *q)?; self.place_ptr(&pv) }
            Rvalue::Reborrow(_, _, q) => { let pv = self.place(bi, it, *q)?; self.read(&it.st, pv.addr, dn)? }
            Rvalue::ThreadLocalRef(d) => { let n = self.tcx.def_path_str(*d); self.effects.insert(format!("thread-local {n}")); return stuck(format!("thread-local {n}")); }
            Rvalue::Cast(k, o, t) => {
                let (b, sl) = self.operand(bi, it, o)?;
                let dl = self.layout(*t)?;
                self.cast(&it.st, *k, b, sl, dl, span)?
            }
            Rvalue::BinaryOp(op, ab) => {
                let (ab0, al) = self.operand(bi, it, &ab.0)?;
                let (bb0, _) = self.operand(bi, it, &ab.1)?;
                if matches!(al.ty.kind(), ty::Float(_)) { Blob::from_scalar(&Sc::top(dn as u32 * 8)) } else {
                let a = ab0.scalar(0, ab0.len());
                let b = bb0.scalar(0, bb0.len());
                match op {
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        let (r, o) = self.with_overflow(*op, &a, &b, al.ty.is_signed());
                        let mut out = Blob::uninit(dn);
                        out.write(dst.layout.fields.offset(0).bytes() as usize, &Blob::from_scalar(&r));
                        out.write(dst.layout.fields.offset(1).bytes() as usize, &Blob::from_scalar(&Sc::boolean(o)));
                        out
                    }
                    BinOp::Offset => {
                        let t = match al.ty.kind() { ty::RawPtr(t, _) | ty::Ref(_, t, _) => *t, _ => return stuck("offset") };
                        let sz = self.layout(t)?.size.bytes() as u128;
                        let x = self.konst(&it.st, &a)?;
                        let k = self.konst(&it.st, &b)?;
                        Blob::from_scalar(&Sc::c(x.wrapping_add(k.wrapping_mul(sz)), 64))
                    }
                    _ => Blob::from_scalar(&self.binop(&it.st, *op, &a, &b, al.ty)?),
                } }
            }
            Rvalue::UnaryOp(op, o) => {
                let (b, l) = self.operand(bi, it, o)?;
                match op {
                    UnOp::Not => {
                        let s = b.scalar(0, b.len());
                        if l.ty.is_bool() { Blob::from_scalar(&Sc::boolean(not(s.bit(0)))) } else { Blob::from_scalar(&s.not()) }
                    }
                    UnOp::Neg => {
                        if matches!(l.ty.kind(), ty::Float(_)) { Blob::from_scalar(&Sc::top(dn as u32 * 8)) }
                        else { let s = b.scalar(0, b.len()); Blob::from_scalar(&Sc::sub(&Sc::C(0, s.width()), &s).0) }
                    }
                    UnOp::PtrMetadata => if b.len() == 16 { b.slice(8, 8) } else { Blob::uninit(0) },
                }
            }
            Rvalue::Discriminant(q) => {
                let pv = self.place(bi, it, *q)?;
                let d = self.read_discr(&it.st, &pv)?;
                Blob::from_scalar(&d.resize(dn as u32 * 8, pv.layout.ty.discriminant_ty(self.tcx).is_signed()))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vals = vec![];
                for o in ops.iter() { vals.push(self.operand(bi, it, o)?.0); }
                match k.as_ref() {
                    AggregateKind::Adt(_, v, _, _, active) => {
                        let vl = if dst.layout.ty.is_enum() { PlaceV { layout: dst.layout.for_variant(&self.cx(), *v), ..dst.clone() } } else { dst.clone() };
                        // everything not written is uninitialised
                        self.write(&mut it.st, dst.addr, &Blob::uninit(dn))?;
                        for (i, b) in vals.iter().enumerate() {
                            let f = match active { Some(a) => a.as_usize(), None => i };
                            let off = vl.layout.fields.offset(f).bytes();
                            self.write(&mut it.st, dst.addr + off, b)?;
                        }
                        self.write_discr(&mut it.st, &dst, *v)?;
                        self.moved(bi, it, rv);
                        return Ok(());
                    }
                    AggregateKind::RawPtr(..) => {
                        let mut r = Blob::uninit(vals.iter().map(|b| b.len()).sum());
                        r.write(0, &vals[0]);
                        r.write(vals[0].len(), &vals[1]);
                        r
                    }
                    _ => {
                        let mut r = Blob::uninit(dn);
                        for (i, b) in vals.iter().enumerate() { r.write(dst.layout.fields.offset(i).bytes() as usize, b); }
                        r
                    }
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(bi, it, o)?.0,
        };
        if out.len() != dn && !dst.layout.is_unsized() { return stuck(format!("size mismatch in assignment: {} vs {dn} for {rv:?}", out.len())); }
        self.write(&mut it.st, dst.addr, &out)?;
        self.moved(bi, it, rv);
        Ok(())
    }
    fn moved(&mut self, _bi: &BodyInfo<'tcx>, _it: &mut Item, _rv: &Rvalue<'tcx>) {}

    // ---- statements ----------------------------------------------------------------------------------------
    fn statement(&mut self, bi: &BodyInfo<'tcx>, it: &mut Item, s: &Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(a) => self.assign(bi, it, a.0, &a.1, s.source_info.span),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(bi, it, **place)?;
                self.write_discr(&mut it.st, &p, *variant_index)
            }
            StatementKind::StorageLive(l) => {
                let i = l.as_usize();
                if it.locals[i] != 0 { it.st.mem.remove(&(it.locals[i] >> SLOT)); }
                it.locals[i] = it.st.alloc(bi.layouts[i].size.bytes() as usize);
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                let i = l.as_usize();
                if it.locals[i] != 0 { it.st.mem.remove(&(it.locals[i] >> SLOT)); it.locals[i] = 0; }
                Ok(())
            }
            StatementKind::Intrinsic(n) => match n.as_ref() {
                NonDivergingIntrinsic::Assume(_) => Ok(()),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (src, sl) = self.operand_sc(bi, it, &c.src)?;
                    let (dst, _) = self.operand_sc(bi, it, &c.dst)?;
                    let (n, _) = self.operand_sc(bi, it, &c.count)?;
                    let t = match sl.ty.kind() { ty::RawPtr(t, _) => *t, _ => return stuck("copy") };
                    let sz = self.layout(t)?.size.bytes() as usize;
                    let n = self.konst(&it.st, &n)? as usize;
                    let (a, b) = (self.konst(&it.st, &src)? as u64, self.konst(&it.st, &dst)? as u64);
                    let d = self.read(&it.st, a, n * sz)?;
                    self.write(&mut it.st, b, &d)
                }
            },
            _ => Ok(()),
        }
    }

    // ---- functions -----------------------------------------------------------------------------------------
    pub fn exec_fn(&mut self, mut st: State, inst: Instance<'tcx>, args: Vec<(Blob, TyAndLayout<'tcx>)>) -> Vec<(State, Blob)> {
        if self.stack.len() > 300 { self.terminal(&st, "stuck", "recursion too deep".into()); return vec![]; }
        let bi = match self.body(inst) {
            Ok(b) => b,
            Err(e) => { self.stop(&st, e); return vec![]; }
        };
        let body = bi.body;
        let span = body.span;
        self.stack.push((inst, span));
        if self.debug { eprintln!("{}{} {}", " ".repeat(self.stack.len()), self.stack.len(), inst); }
        let mut locals = vec![0u64; body.local_decls.len()];
        for (l, _) in body.local_decls.iter_enumerated() {
            let i = l.as_usize();
            if i <= body.arg_count || bi.always[i] { locals[i] = st.alloc(bi.layouts[i].size.bytes() as usize); }
        }
        // pass arguments
        let mut it = Item { st, bb: START_BLOCK, stmt: 0, locals, hold: false };
        let mut ai = args.into_iter();
        let nargs = ai.len();
        let is_closure = self.tcx.is_closure_like(inst.def_id()) || matches!(inst.def, InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }));
        let mut ok = true;
        for (k, l) in body.args_iter().enumerate() {
            let lay = bi.layouts[l.as_usize()];
            let addr = it.locals[l.as_usize()];
            if Some(l) == body.spread_arg {
                let n = lay.fields.count();
                for f in 0..n {
                    let Some((b, _)) = ai.next() else { ok = false; break };
                    let off = lay.fields.offset(f).bytes();
                    if self.write(&mut it.st, addr + off, &b).is_err() { ok = false; }
                }
            } else if is_closure && k == 0 && lay.is_zst() && nargs < body.arg_count {
                // a non-capturing closure called through a function pointer
            } else {
                match ai.next() {
                    Some((b, _)) => { if b.len() as u64 != lay.size.bytes() || self.write(&mut it.st, addr, &b).is_err() { ok = false; } }
                    None => ok = false,
                }
            }
        }
        if !ok || ai.next().is_some() {
            self.terminal(&it.st, "stuck", format!("argument passing to {inst}"));
            self.stack.pop();
            return vec![];
        }
        let mut work: BTreeMap<u32, Vec<Item>> = BTreeMap::new();
        work.insert(bi.rpo[0], vec![it]);
        let mut rets: Vec<(State, Blob)> = vec![];
        while let Some((&k, _)) = work.iter().next() {
            let items = work.remove(&k).unwrap();
            let items = self.merge_items(&bi, items);
            if self.started.elapsed().as_millis() as u64 > self.seconds * 1000 + 300 { self.overdue = true; }
            if self.overdue {
                for i in &items { self.terminal(&i.st, "stuck", "time budget exceeded".into()); }
                continue;
            }
            if items.len() > self.items_max {
                for i in &items { self.terminal(&i.st, "stuck", "too many partitions".into()); }
                continue;
            }
            for (n, item) in items.into_iter().enumerate() {
                let _ = n;
                self.run(&bi, inst, item, &mut work, &mut rets);
            }
        }
        self.stack.pop();
        if rets.len() > 1 {
            let n = rets.len();
            rets = merge_all(rets);
            self.merges += (n - rets.len()) as u64;
        }
        rets
    }
    fn merge_items(&mut self, bi: &BodyInfo<'tcx>, mut items: Vec<Item>) -> Vec<Item> {
        if items.len() < 2 { return items; }
        // what is left over in temporaries does not keep partitions apart
        for i in items.iter_mut() {
            if i.stmt != 0 || i.hold { continue; }
            for &l in &bi.dead[i.bb.as_usize()] {
                if i.locals[l] == 0 { continue; }
                if let Some(b) = i.st.mem.get_mut(&(i.locals[l] >> SLOT)) {
                    if b.kind.iter().any(|&k| k != 1) { *b = Rc::new(Blob::uninit(b.len())); }
                }
            }
        }
        let mut out = vec![];
        let mut groups: Vec<Vec<Item>> = vec![];
        for i in items {
            if i.stmt != 0 || i.hold { out.push(i); continue; }
            match groups.iter_mut().find(|g| g[0].locals == i.locals) { Some(g) => g.push(i), None => groups.push(vec![i]) }
        }
        for g in groups {
            if g.len() == 1 || g.len() > 600 { out.extend(g); continue; }
            let n = g.len();
            let bb = g[0].bb;
            let locals = g[0].locals.clone();
            let m = merge_all(g.into_iter().map(|i| (i.st, Blob::uninit(0))).collect());
            self.merges += (n - m.len()) as u64;
            out.extend(m.into_iter().map(|(st, _)| Item { st, bb, stmt: 0, locals: locals.clone(), hold: false }));
        }
        out
    }
    pub fn stop(&mut self, st: &State, e: Stop) {
        match e {
            Stop::Stuck(m) => self.terminal(st, "stuck", m),
            Stop::Fault(m) => self.terminal(st, "fault", m),
            Stop::Split(_) => self.terminal(st, "stuck", "split outside a function".into()),
        }
    }
    fn push(&self, bi: &BodyInfo<'tcx>, work: &mut BTreeMap<u32, Vec<Item>>, it: Item) {
        work.entry(bi.rpo[it.bb.as_usize()]).or_default().push(it);
    }
    fn run(&mut self, bi: &Rc<BodyInfo<'tcx>>, inst: Instance<'tcx>, mut it: Item, work: &mut BTreeMap<u32, Vec<Item>>, rets: &mut Vec<(State, Blob)>) {
        let body = bi.body;
        it.hold = false;
        loop {
            let data = &body.basic_blocks[it.bb];
            self.cover.entry(inst).or_default().insert(it.bb.as_u32());
            while it.stmt < data.statements.len() {
                self.steps += 1;
                let s = &data.statements[it.stmt];
                self.stack.last_mut().unwrap().1 = s.source_info.span;
                match self.statement(bi, &mut it, s) {
                    Ok(()) => it.stmt += 1,
                    Err(Stop::Split(b)) => { self.split(bi, it, b, work); return; }
                    Err(e) => { self.stop(&it.st, e); return; }
                }
            }
            self.steps += 1;
            if self.steps > self.budget { self.terminal(&it.st, "stuck", "step budget exceeded".into()); return; }
            let t = data.terminator();
            self.stack.last_mut().unwrap().1 = t.source_info.span;
            let next: BasicBlock = match &t.kind {
                TerminatorKind::Goto { target, .. } => *target,
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => *real_target,
                TerminatorKind::Return => {
                    let l = bi.layouts[0];
                    match self.read(&it.st, it.locals[0], l.size.bytes() as usize) {
                        Ok(b) => { for a in &it.locals { if *a != 0 { it.st.mem.remove(&(*a >> SLOT)); } } rets.push((it.st, b)); }
                        Err(e) => self.stop(&it.st, e),
                    }
                    return;
                }
                TerminatorKind::Unreachable => { self.terminal(&it.st, "unreachable", "unreachable code reached".into()); return; }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let (d, _) = match self.operand_sc(bi, &it, discr) { Ok(x) => x, Err(Stop::Split(b)) => { self.split(bi, it, b, work); return; } Err(e) => { self.stop(&it.st, e); return; } };
                    let d = it.st.simp_sc(&d);
                    match d {
                        Sc::C(v, _) => targets.target_for_value(v),
                        d => {
                            if d.bits().iter().any(|&b| is_special(b)) {
                                // unknown condition: both ways are possible
                                let mut ts: Vec<BasicBlock> = targets.all_targets().to_vec();
                                ts.dedup();
                                for t in ts { let mut n = it.clone(); n.bb = t; n.stmt = 0; n.st.approx = true; self.push(bi, work, n); }
                                self.splits += 1;
                                return;
                            }
                            let it_bb = it.bb;
                            let mut rest = Some(it);
                            for (v, t) in targets.iter() {
                                let Some(r) = rest.take() else { break };
                                let b = r.st.simp(Sc::eq(&d, &Sc::C(v, d.width())));
                                if b == ZERO { rest = Some(r); continue; }
                                self.splits += 1;
                                let locals = r.locals.clone();
                                let (y, n) = r.st.branch(b);
                                if let Some(st) = y { self.push(bi, work, Item { st, bb: t, stmt: 0, locals: locals.clone(), hold: false }); }
                                if let Some(st) = n { rest = Some(Item { st, bb: it_bb, stmt: 0, locals, hold: false }); }
                            }
                            if let Some(mut r) = rest { r.bb = targets.otherwise(); r.stmt = 0; self.push(bi, work, r); }
                            return;
                        }
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (c, _) = match self.operand_sc(bi, &it, cond) { Ok(x) => x, Err(Stop::Split(b)) => { self.split(bi, it, b, work); return; } Err(e) => { self.stop(&it.st, e); return; } };
                    let mut b = it.st.simp(c.bit(0));
                    if !*expected { b = not(b); }
                    if b != ONE {
                        let before = it.st.hist.clone();
                        let mut f = it.st.clone();
                        let fails = f.assume(not(b));
                        if fails {
                            let m = match msg.as_ref() {
                                AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                                AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
                                AssertKind::OverflowNeg(_) => "negation overflow".into(),
                                AssertKind::DivisionByZero(_) => "division by zero".into(),
                                AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                                _ => "assertion".into(),
                            };
                            let m = if b == TOP { format!("possible {m} (undecided)") } else { m };
                            self.terminal(&f, if b == TOP { "stuck" } else { "panic" }, m);
                        }
                        if b == ZERO { return; }
                        if b != TOP && !it.st.assume(b) { return; }
                        if !fails { it.st.hist = before; }
                    }
                    *target
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let r = self.drop_call(bi, &it, *place);
                    match r {
                        Ok(None) => *target,
                        Ok(Some((i, arg))) => {
                            let st = std::mem::replace(&mut it.st, State::new());
                            let res = self.exec_fn(st, i, vec![arg]);
                            if res.len() == 1 { it.st = res.into_iter().next().unwrap().0; *target } else {
                                for (s, _) in res { self.push(bi, work, Item { st: s, bb: *target, stmt: 0, locals: it.locals.clone(), hold: false }); }
                                return;
                            }
                        }
                        Err(Stop::Split(b)) => { self.split(bi, it, b, work); return; }
                        Err(e) => { self.stop(&it.st, e); return; }
                    }
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    match self.call(bi, &mut it, func, args, *destination, *target, *fn_span) {
                        Ok(mut res) => {
                            let Some(target) = target else { return };
                            if res.len() == 1 { it.st = res.pop().unwrap(); *target } else {
                                for s in res { self.push(bi, work, Item { st: s, bb: *target, stmt: 0, locals: it.locals.clone(), hold: false }); }
                                return;
                            }
                        }
                        Err(Stop::Split(b)) => { self.split(bi, it, b, work); return; }
                        Err(e) => { self.stop(&it.st, e); return; }
                    }
                }
                TerminatorKind::InlineAsm { .. } => { self.effects.insert("inline assembly".into()); self.terminal(&it.st, "stuck", "inline assembly".into()); return; }
                k => { self.terminal(&it.st, "stuck", format!("terminator {k:?}")); return; }
            };
            it.bb = next;
            it.stmt = 0;
            if !work.is_empty() { self.push(bi, work, it); return; }
        }
    }
    fn split(&mut self, bi: &BodyInfo<'tcx>, it: Item, b: B, work: &mut BTreeMap<u32, Vec<Item>>) {
        self.splits += 1;
        let b = it.st.simp(b);
        if is_special(b) || is_const(b) { self.terminal(&it.st, "stuck", "cannot split on an unknown bit".into()); return; }
        let Item { st, bb, stmt, locals, .. } = it;
        let (y, n) = st.branch(b);
        for st in [y, n].into_iter().flatten() { self.push(bi, work, Item { st, bb, stmt, locals: locals.clone(), hold: true }); }
    }
    fn drop_call(&mut self, bi: &BodyInfo<'tcx>, it: &Item, p: Place<'tcx>) -> R<Option<(Instance<'tcx>, (Blob, TyAndLayout<'tcx>))>> {
        let mut pv = self.place(bi, it, p)?;
        if !pv.layout.ty.needs_drop(self.tcx, self.env) { return Ok(None); }
        if let ty::Dynamic(..) = pv.layout.ty.kind() {
            let vt = self.konst(&it.st, pv.meta.as_ref().unwrap())? as u64;
            let f = self.read_sc(&it.st, vt, 8)?;
            let a = self.konst(&it.st, &f)? as u64;
            if a == 0 { return Ok(None); }
            let Some(i) = self.fn_at(a) else { return stuck("vtable drop") };
            pv.meta = None;
            let l = self.layout(Ty::new_mut_ptr(self.tcx, self.tcx.types.u8))?;
            return Ok(Some((i, (self.place_ptr(&pv), l))));
        }
        let i = Instance::resolve_drop_glue(self.tcx, pv.layout.ty);
        if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = i.def { return Ok(None); }
        let l = self.layout(Ty::new_mut_ptr(self.tcx, pv.layout.ty))?;
        Ok(Some((i, (self.place_ptr(&pv), l))))
    }
    fn call(&mut self, bi: &BodyInfo<'tcx>, it: &mut Item, func: &Operand<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], dest: Place<'tcx>, target: Option<BasicBlock>, span: Span) -> R<Vec<State>> {
        let (fb, fl) = self.operand(bi, it, func)?;
        let (inst, sig) = match *fl.ty.kind() {
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap();
                (self.resolve(d, a, span), fl.ty.fn_sig(self.tcx))
            }
            ty::FnPtr(..) => {
                let s = fb.scalar(0, 8);
                let a = self.konst(&it.st, &s)? as u64;
                match self.fn_at(a) { Some(i) => (i, fl.ty.fn_sig(self.tcx)), None => return stuck("call through an unknown function pointer") }
            }
            _ => return stuck("call of a non-function"),
        };
        let abi = sig.abi();
        let mut av = vec![];
        for a in args { av.push(self.operand(bi, it, &a.node)?); }
        let dst = self.place(bi, it, dest)?;
        let st = it.st.clone();
        if target.is_none() {
            // a diverging call: a panic or an exit
            let p = self.path(inst.def_id());
            self.terminal(&st, "panic", p.to_string());
            return Ok(vec![]);
        }
        it.st = State::new();
        let r = self.dispatch(st, inst, abi == rustc_abi::ExternAbi::RustCall, av, dst.layout, span);
        match r {
            Ok(res) => {
                let mut out = vec![];
                for (mut s, b) in res {
                    match self.write(&mut s, dst.addr, &b) { Ok(()) => out.push(s), Err(e) => self.stop(&s, e) }
                }
                Ok(out)
            }
            Err((s, e)) => { it.st = s; Err(e) }
        }
    }
    /// a tuple-like constructor called as a function
    fn construct(&mut self, mut st: State, d: DefId, av: Vec<(Blob, TyAndLayout<'tcx>)>, dl: TyAndLayout<'tcx>) -> Result<Vec<(State, Blob)>, (State, Stop)> {
        let Some(adt) = dl.ty.ty_adt_def() else { return Err((st, Stop::Stuck("constructor".into()))) };
        let v = adt.variant_index_with_ctor_id(d);
        let n = dl.size.bytes() as usize;
        let a = st.alloc(n);
        let p = PlaceV { addr: a, meta: None, layout: dl };
        let vl = if adt.is_enum() { dl.for_variant(&self.cx(), v) } else { dl };
        let r = (|| -> R<Blob> {
            self.write(&mut st, a, &Blob::uninit(n))?;
            for (i, (b, _)) in av.iter().enumerate() { self.write(&mut st, a + vl.fields.offset(i).bytes(), b)?; }
            if adt.is_enum() { self.write_discr(&mut st, &p, v)?; }
            self.read(&st, a, n)
        })();
        st.mem.remove(&(a >> SLOT));
        match r { Ok(b) => Ok(vec![(st, b)]), Err(e) => Err((st, e)) }
    }
    pub fn dispatch(&mut self, mut st: State, inst: Instance<'tcx>, rust_call: bool, mut av: Vec<(Blob, TyAndLayout<'tcx>)>, dl: TyAndLayout<'tcx>, span: Span) -> Result<Vec<(State, Blob)>, (State, Stop)> {
        macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Err((st, e)) } } }
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                let name = self.tcx.item_name(d);
                match self.intrinsic(&mut st, name.as_str(), inst, &av, dl) {
                    Ok(Some(b)) => Ok(vec![(st, b)]),
                    Ok(None) => {
                        let intr = self.tcx.intrinsic(d).unwrap();
                        if name.as_str() == "const_eval_select" {
                            // arguments tuple, const fn, runtime fn
                            let t = av[0].1;
                            let ty::FnDef(rd, ra) = *av[2].1.ty.kind() else { return Err((st, Stop::Stuck("const_eval_select".into()))) };
                            let i = self.resolve(rd, ra.no_bound_vars().unwrap(), span);
                            let mut args = vec![];
                            for k in 0..t.fields.count() {
                                let f = t.field(&self.cx(), k);
                                args.push((av[0].0.slice(t.fields.offset(k).bytes() as usize, f.size.bytes() as usize), f));
                            }
                            return self.dispatch(st, i, false, args, dl, span);
                        }
                        if intr.must_be_overridden { return Err((st, Stop::Stuck(format!("intrinsic {name}")))); }
                        let i = Instance { def: InstanceKind::Item(d), args: inst.args };
                        Ok(self.exec_fn(st, i, av))
                    }
                    Err(e) => Err((st, e)),
                }
            }
            InstanceKind::Virtual(_, idx) => {
                let recv = &av[0];
                if recv.0.len() < 16 { return Err((st, Stop::Stuck("virtual receiver".into()))); }
                let vt = tri!(self.konst(&st, &recv.0.scalar(8, 8))) as u64;
                let f = tri!(self.read_sc(&st, vt + 8 * idx as u64, 8));
                let a = tri!(self.konst(&st, &f)) as u64;
                let Some(i) = self.fn_at(a) else { return Err((st, Stop::Stuck("virtual call".into()))) };
                let thin = recv.0.slice(0, 8);
                let l = tri!(self.layout(Ty::new_mut_ptr(self.tcx, self.tcx.types.u8)));
                av[0] = (thin, l);
                self.dispatch(st, i, rust_call, av, dl, span)
            }
            InstanceKind::LlvmIntrinsic(_) => Err((st, Stop::Stuck("llvm intrinsic".into()))),
            _ => {
                match self.intercept(&mut st, inst, &av, dl) {
                    Ok(Some(b)) => return Ok(vec![(st, b)]),
                    Ok(None) => {}
                    Err(Stop::Stuck(m)) if m == "redirect" => {
                        let (i, a) = self.redirect.take().unwrap();
                        return Ok(self.exec_fn(st, i, a));
                    }
                    Err(e) => return Err((st, e)),
                }
                if rust_call && !av.is_empty() {
                    let (b, l) = av.pop().unwrap();
                    for k in 0..l.fields.count() {
                        let f = l.field(&self.cx(), k);
                        av.push((b.slice(l.fields.offset(k).bytes() as usize, f.size.bytes() as usize), f));
                    }
                }
                if let InstanceKind::Item(d) = inst.def {
                    if self.tcx.is_constructor(d) { return self.construct(st, d, av, dl); }
                }
                Ok(self.exec_fn(st, inst, av))
            }
        }
    }
}

pub trait ScExt { fn clone_and_mask(&self, k: u32) -> Sc; }
impl ScExt for Sc {
    fn clone_and_mask(&self, k: u32) -> Sc {
        let n = self.width();
        Sc::from_bits(self.bits().into_iter().enumerate().map(|(i, b)| if (i as u32) < k { b } else { ZERO }).collect::<Vec<_>>()).resize(n, false)
    }
}
fn udivrem(s: &Sc, y: u128, n: u32, div: bool) -> Sc {
    // restoring division on terms, only when few bits are unknown
    let unk: BTreeSet<u32> = s.bits().iter().filter(|&&b| !is_const(b)).map(|&b| node_of(b)).collect();
    if unk.len() > 8 || s.bits().iter().any(|&b| is_special(b)) { return Sc::top(n); }
    let mut rem = Sc::C(0, n + 1);
    let d = Sc::C(y, n + 1);
    let mut q = vec![ZERO; n as usize];
    for i in (0..n).rev() {
        let mut v = rem.shl(1).bits();
        v[0] = s.bit(i);
        rem = Sc::from_bits(v);
        let ge = not(Sc::lt(&rem, &d, false));
        q[i as usize] = ge;
        let sub = Sc::sub(&rem, &d).0;
        let (sb, rb) = (sub.bits(), rem.bits());
        rem = Sc::from_bits(sb.iter().zip(rb.iter()).map(|(&a, &b)| ite(ge, a, b)).collect());
    }
    if div { Sc::from_bits(q) } else { rem.resize(n, false) }
}
