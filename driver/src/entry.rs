//! Entry points: abstract inputs for each `w_*` function of the witness crate, and the dump of the resulting partitions.
use crate::bits::*;
use crate::interp::*;
use crate::json::J;
use crate::state::*;
use rustc_abi::{FieldsShape, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const SLICE_CONTENT: u64 = 160;
const STR_CONTENT: u64 = 48;

impl<'tcx> Interp<'tcx> {
    fn short(&mut self, d: rustc_hir::def_id::DefId) -> String { self.tcx.item_name(d).to_string() }
    fn is_integer_newtype(&mut self, t: Ty<'tcx>) -> Option<u32> {
        let ty::Adt(a, args) = t.kind() else { return None };
        if self.short(a.did()) != "Integer" || !self.tcx.crate_name(a.did().krate).as_str().starts_with("packed_struct") { return None; }
        let b = args.types().nth(1)?;
        let ty::Adt(_, ba) = b.kind() else { return None };
        let n = ba.consts().next()?.try_to_target_usize(self.tcx)?;
        Some(n as u32)
    }
    fn leaves(path: &str, n: u32) -> Vec<B> { (0..n).map(|i| leaf(path, i)).collect() }
    /// fill the value at `addr` with unknown inputs named after `path`; one state per variant of every data enum
    fn fill(&mut self, mut st: State, addr: u64, l: TyAndLayout<'tcx>, path: &str) -> R<Vec<State>> {
        let n = l.size.bytes() as usize;
        match l.ty.kind() {
            ty::Bool => { self.write(&mut st, addr, &Blob::from_scalar(&Sc::boolean(leaf(path, 0))))?; Ok(vec![st]) }
            ty::Int(_) | ty::Uint(_) => { self.write(&mut st, addr, &Blob::from_scalar(&Sc::from_bits(Self::leaves(path, 8 * n as u32))))?; Ok(vec![st]) }
            ty::Char => {
                let b = Self::leaves(path, 32);
                let c = cmp_const(&Sc::from_bits(b.clone()), &|_| vec![(0, 0xd7ff), (0xe000, 0x10ffff)]);
                if !st.assume(c) { return stuck("char"); }
                self.write(&mut st, addr, &Blob::from_scalar(&Sc::from_bits(b)))?;
                Ok(vec![st])
            }
            ty::Array(..) => {
                let FieldsShape::Array { stride, count } = l.fields else { return stuck("array") };
                let e = l.field(&self.cx(), 0);
                let mut sts = vec![st];
                for i in 0..count {
                    let mut nx = vec![];
                    for s in sts { nx.extend(self.fill(s, addr + i * stride.bytes(), e, &format!("{path}[{i}]"))?); }
                    sts = nx;
                }
                Ok(sts)
            }
            ty::Tuple(..) => {
                let mut sts = vec![st];
                for i in 0..l.fields.count() {
                    let (f, o) = (l.field(&self.cx(), i), l.fields.offset(i).bytes());
                    let mut nx = vec![];
                    for s in sts { nx.extend(self.fill(s, addr + o, f, &format!("{path}.{i}"))?); }
                    sts = nx;
                }
                Ok(sts)
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => {
                let pl = self.layout(*t)?;
                if pl.is_sized() {
                    let a = st.alloc(pl.size.bytes() as usize);
                    self.write(&mut st, addr, &Blob::bytes(&a.to_le_bytes()))?;
                    return self.fill(st, a, pl, path);
                }
                let (et, cnt) = match t.kind() { ty::Slice(e) => (*e, SLICE_CONTENT), ty::Str => (self.tcx.types.u8, STR_CONTENT), _ => return stuck(format!("input of type {}", l.ty)) };
                let el = self.layout(et)?;
                let sz = el.size.bytes();
                let a = st.alloc((cnt * sz) as usize);
                self.write(&mut st, addr, &Blob::bytes(&a.to_le_bytes()))?;
                let len = Self::leaves(&format!("{path}.len"), 64);
                let max = if sz == 0 { u64::MAX } else { i64::MAX as u64 / sz };
                let c = cmp_const(&Sc::from_bits(len.clone()), &|_| vec![(0, max as u128)]);
                if !st.assume(c) { return stuck("length"); }
                self.write(&mut st, addr + 8, &Blob::from_scalar(&Sc::from_bits(len)))?;
                let mut sts = vec![st];
                for i in 0..cnt {
                    let mut nx = vec![];
                    for s in sts { nx.extend(self.fill(s, a + i * sz, el, &format!("{path}[{i}]"))?); }
                    sts = nx;
                }
                Ok(sts)
            }
            ty::Adt(a, _) if a.is_struct() => {
                if let Some(bits) = self.is_integer_newtype(l.ty) {
                    // an in-range value: `bits` free bits, extended to the carrier
                    let f = l.field(&self.cx(), 0);
                    let w = f.size.bits() as u32;
                    let s = Sc::from_bits(Self::leaves(path, bits.min(w))).resize(w, f.ty.is_signed());
                    self.write(&mut st, addr + l.fields.offset(0).bytes(), &Blob::from_scalar(&s))?;
                    return Ok(vec![st]);
                }
                let mut sts = vec![st];
                let v = a.non_enum_variant();
                for i in 0..l.fields.count() {
                    let (f, o) = (l.field(&self.cx(), i), l.fields.offset(i).bytes());
                    let name = v.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                    let mut nx = vec![];
                    for s in sts { nx.extend(self.fill(s, addr + o, f, &format!("{path}.{name}"))?); }
                    sts = nx;
                }
                Ok(sts)
            }
            ty::Adt(a, _) if a.is_enum() => {
                let data = a.variants().iter().any(|v| !v.fields.is_empty());
                match &l.variants {
                    Variants::Multiple { tag, tag_encoding: rustc_abi::TagEncoding::Direct, tag_field, .. } if !data => {
                        let w = tag.size(&self.cx()).bits() as u32;
                        let set: ISet = iset_norm(a.discriminants(self.tcx).map(|(_, d)| (d.val & mask(w), d.val & mask(w))).collect());
                        let b = Self::leaves(path, w);
                        let c = cmp_const(&Sc::from_bits(b.clone()), &|_| set.clone());
                        if !st.assume(c) { return stuck("enum tag"); }
                        let off = l.fields.offset(tag_field.as_usize()).bytes();
                        self.write(&mut st, addr + off, &Blob::from_scalar(&Sc::from_bits(b)))?;
                        Ok(vec![st])
                    }
                    _ => {
                        let mut out = vec![];
                        for (vi, v) in a.variants().iter_enumerated() {
                            let vl = if let Variants::Single { .. } = l.variants { l } else { l.for_variant(&self.cx(), vi) };
                            if vl.is_uninhabited() { continue; }
                            let mut sts = vec![st.clone()];
                            let names: Vec<String> = v.fields.iter().map(|f| f.name.to_string()).collect();
                            let vname = v.name.to_string();
                            for i in 0..vl.fields.count().min(names.len()) {
                                let (f, o) = (vl.field(&self.cx(), i), vl.fields.offset(i).bytes());
                                let mut nx = vec![];
                                for s in sts { nx.extend(self.fill(s, addr + o, f, &format!("{path}.{vname}.{}", names[i]))?); }
                                sts = nx;
                            }
                            for mut s in sts {
                                self.write_discr(&mut s, &PlaceV { addr, meta: None, layout: l }, vi)?;
                                // the choice of the variant is an input too
                                let k = vi.as_u32() as u128;
                                let c = cmp_const(&Sc::from_bits(Self::leaves(&format!("{path}#"), 8)), &|_| vec![(k, k)]);
                                if !s.assume(c) { return stuck("variant"); }
                                out.push(s);
                            }
                        }
                        Ok(out)
                    }
                }
            }
            _ if n == 0 => Ok(vec![st]),
            _ => stuck(format!("input of type {}", l.ty)),
        }
    }
    fn sc_json(&self, st: &State, s: &Sc, signed: bool, refs: &mut BTreeSet<u32>) -> J {
        match st.simp_sc(s) {
            Sc::C(v, n) => J::o(vec![("w", J::N(n as i128)), ("n", if signed { J::N(sext(v, n)) } else { J::U(v) })]),
            Sc::S(v) => {
                for &b in &v { if b >= 4 { refs.insert(node_of(b)); } }
                J::o(vec![("w", J::N(v.len() as i128)), ("sg", J::B(signed)), ("bits", J::A(v.iter().map(|&b| J::N(b as i128)).collect()))])
            }
        }
    }
    /// the pointer inside a chain of wrappers
    fn find_ptr(&mut self, p: &PlaceV<'tcx>) -> Option<PlaceV<'tcx>> {
        if p.layout.ty.is_raw_ptr() || matches!(p.layout.ty.kind(), ty::Pat(..)) { return Some(p.clone()); }
        if !p.layout.ty.is_adt() { return None; }
        for i in 0..p.layout.fields.count() {
            let f = self.field(p, i).ok()?;
            if f.layout.is_zst() { continue; }
            if let Some(r) = self.find_ptr(&f) { return Some(r); }
        }
        None
    }
    fn dump(&mut self, st: &State, p: &PlaceV<'tcx>, refs: &mut BTreeSet<u32>, depth: u32) -> R<J> {
        if depth > 24 { return stuck("value too deep"); }
        let l = p.layout;
        let n = l.size.bytes() as usize;
        match l.ty.kind() {
            ty::Bool => {
                let s = self.read_sc(st, p.addr, 1)?;
                let b = st.simp(s.bit(0));
                Ok(match b { ZERO => J::B(false), ONE => J::B(true), b => { if b >= 4 { refs.insert(node_of(b)); } J::o(vec![("b", J::N(b as i128))]) } })
            }
            ty::Int(_) | ty::Uint(_) | ty::Char => { let s = self.read_sc(st, p.addr, n)?; Ok(self.sc_json(st, &s, l.ty.is_signed(), refs)) }
            ty::Float(_) => { let s = self.read_sc(st, p.addr, n)?; Ok(self.sc_json(st, &s, false, refs)) }
            ty::Array(..) | ty::Slice(_) => {
                let c = self.len_of(st, p)?;
                let mut v = vec![];
                for i in 0..c { let e = self.index(p, i)?; v.push(self.dump(st, &e, refs, depth + 1)?); }
                Ok(J::o(vec![("a", J::A(v))]))
            }
            ty::Str => {
                let c = self.len_of(st, p)? as usize;
                let b = self.read(st, p.addr, c)?;
                if b.kind.iter().all(|&k| k == 0) { return Ok(J::S(String::from_utf8_lossy(&b.data).to_string())); }
                let mut v = vec![];
                for i in 0..c { let s = b.scalar(i, 1); v.push(self.sc_json(st, &s, false, refs)); }
                Ok(J::o(vec![("symstr", J::A(v))]))
            }
            ty::Tuple(..) => {
                let mut v = vec![];
                for i in 0..l.fields.count() { let f = self.field(p, i)?; v.push(self.dump(st, &f, refs, depth + 1)?); }
                Ok(J::o(vec![("t", J::A(v))]))
            }
            ty::Ref(..) => {
                let d = self.deref(st, p)?;
                // a symbolic length: the argument itself
                if let Some(m) = &d.meta { if self.konst(st, m).is_err() { return Ok(J::o(vec![("slice", J::s(format!("{:#x}", d.addr)))])); } }
                self.dump(st, &d, refs, depth + 1)
            }
            ty::FnPtr(..) | ty::RawPtr(..) => Ok(J::s("ptr")),
            ty::Closure(..) | ty::FnDef(..) => Ok(J::s("fn")),
            ty::Adt(a, args) if a.is_struct() => {
                let name = self.short(a.did());
                let v = a.non_enum_variant();
                if name == "String" && l.fields.count() == 1 {
                    let f = self.field(p, 0)?;
                    return match self.dump(st, &f, refs, depth + 1)? {
                        J::O(v) => Ok(J::O(v.into_iter().map(|(k, x)| (if k == "vec" { "string".to_string() } else { k }, x)).collect())),
                        J::S(s) => Ok(J::S(s)),
                        x => Ok(x),
                    };
                }
                if name == "Vec" {
                    let et = args.type_at(0);
                    let el = self.layout(et)?;
                    let mut len = None;
                    let mut ptr = None;
                    for i in 0..l.fields.count() {
                        let fname = v.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                        let f = self.field(p, i)?;
                        if fname == "len" { let s = self.read_sc(st, f.addr, 8)?; len = Some(self.konst(st, &s)? as u64); }
                        if fname == "buf" { if let Some(q) = self.find_ptr(&f) { let s = self.read_sc(st, q.addr, 8)?; ptr = Some(self.konst(st, &s)? as u64); } }
                    }
                    let (Some(len), Some(ptr)) = (len, ptr) else { return stuck("Vec shape") };
                    if et == self.tcx.types.u8 {
                        let b = self.read(st, ptr, len as usize)?;
                        if depth > 0 && b.kind.iter().all(|&k| k == 0) && false { return Ok(J::S(String::from_utf8_lossy(&b.data).to_string())); }
                    }
                    let mut out = vec![];
                    for i in 0..len { out.push(self.dump(st, &PlaceV { addr: ptr + i * el.size.bytes(), meta: None, layout: el }, refs, depth + 1)?); }
                    return Ok(J::o(vec![("vec", J::A(out))]));
                }
                let mut fs = vec![];
                for i in 0..l.fields.count() {
                    let f = self.field(p, i)?;
                    if f.layout.is_zst() && name != "PhantomData" {
                        let isph = f.layout.ty.ty_adt_def().map_or(false, |d| d.is_phantom_data());
                        if isph { continue; }
                    }
                    let fname = v.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                    fs.push((fname, self.dump(st, &f, refs, depth + 1)?));
                }
                Ok(J::o(vec![("s", J::S(name)), ("f", J::O(fs))]))
            }
            ty::Adt(a, _) if a.is_enum() => {
                let name = self.short(a.did());
                let data = a.variants().iter().any(|v| !v.fields.is_empty());
                let d = self.read_discr(st, p)?;
                let d = st.simp_sc(&d);
                if !data {
                    if let Sc::S(_) = &d {
                        let w = d.width();
                        let map = a.discriminants(self.tcx).map(|(v, x)| J::A(vec![J::s(a.variant(v).name.to_string()), J::U(x.val & mask(w))])).collect();
                        return Ok(J::o(vec![("c", J::S(name)), ("tag", self.sc_json(st, &d, false, refs)), ("map", J::A(map))]));
                    }
                }
                let v = self.konst(st, &d)?;
                let w = d.width();
                let vi = a.discriminants(self.tcx).find(|(_, x)| x.val & mask(w) == v).map(|x| x.0);
                let Some(vi) = vi else { return fault(format!("value {v} is no discriminant of {}", l.ty)) };
                self.dump_variant(st, p, vi, name, refs, depth)
            }
            ty::Never => Ok(J::s("never")),
            _ => if n == 0 { Ok(J::Null) } else { Ok(J::s(format!("?{}", l.ty))) },
        }
    }
    fn dump_variant(&mut self, st: &State, p: &PlaceV<'tcx>, vi: VariantIdx, name: String, refs: &mut BTreeSet<u32>, depth: u32) -> R<J> {
        let a = p.layout.ty.ty_adt_def().unwrap();
        let vl = match p.layout.variants { Variants::Single { .. } => p.layout, _ => p.layout.for_variant(&self.cx(), vi) };
        let vp = PlaceV { layout: vl, ..p.clone() };
        let mut fs = vec![];
        for (i, fd) in a.variant(vi).fields.iter().enumerate() {
            let f = self.field(&vp, i)?;
            fs.push((fd.name.to_string(), self.dump(st, &f, refs, depth + 1)?));
        }
        Ok(J::o(vec![("e", J::S(name)), ("v", J::s(a.variant(vi).name.to_string())), ("f", J::O(fs))]))
    }
    fn log_json(&self, st: &State, refs: &mut BTreeSet<u32>) -> J {
        let b = &st.log;
        if b.kind.iter().all(|&k| k == 0) { return J::S(String::from_utf8_lossy(&b.data).to_string()); }
        let mut v = vec![];
        for i in 0..b.len() { v.push(self.sc_json(st, &b.scalar(i, 1), false, refs)); }
        J::o(vec![("symstr", J::A(v))])
    }
}

fn guard_json(g: &Guard, refs: &mut BTreeSet<u32>) -> J {
    for n in g.lits.keys() { refs.insert(*n); }
    for t in g.sets.keys() { for n in tuple_nodes(*t).iter() { refs.insert(*n); } }
    let set = |t: &u32, s: &ISet| J::A(vec![
        J::A(tuple_nodes(*t).iter().map(|n| J::N(*n as i128)).collect()),
        J::A(s.iter().map(|(l, h)| J::A(vec![J::U(*l), J::U(*h)])).collect())]);
    J::o(vec![
        ("l", J::A(g.lits.iter().map(|(n, v)| J::N(((*n as i128) << 1) | (!*v) as i128)).collect())),
        ("s", J::A(g.sets.iter().map(|(t, s)| set(t, s)).collect())),
        ("o", J::A(g.ors.iter().map(|o| J::A(o.iter().map(|h| guard_json(h, refs)).collect())).collect())),
    ])
}

fn nodes_json(refs: BTreeSet<u32>) -> J {
    let mut done: BTreeMap<u32, J> = BTreeMap::new();
    let mut work: Vec<u32> = refs.into_iter().collect();
    while let Some(n) = work.pop() {
        if n < 2 || done.contains_key(&n) { continue; }
        let j = match node(n) {
            Node::Leaf(i, b) => J::A(vec![J::s("L"), J::S(with(|t| t.names[i as usize].clone())), J::N(b as i128)]),
            Node::And(p, q) => { work.push(node_of(p)); work.push(node_of(q)); J::A(vec![J::s("A"), J::N(p as i128), J::N(q as i128)]) }
            Node::Xor(p, q) => { work.push(node_of(p)); work.push(node_of(q)); J::A(vec![J::s("X"), J::N(p as i128), J::N(q as i128)]) }
            Node::Set(t, s) => {
                let ns = tuple_nodes(t);
                for m in ns.iter() { work.push(*m); }
                J::A(vec![J::s("S"), J::A(ns.iter().map(|m| J::N(*m as i128)).collect()), J::A(s.iter().map(|(l, h)| J::A(vec![J::U(*l), J::U(*h)])).collect())])
            }
            _ => J::Null,
        };
        done.insert(n, j);
    }
    J::O(done.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn run(tcx: TyCtxt<'_>) {
    let out_path = std::env::var("VP_OUT").unwrap();
    let only = std::env::var("VP_ENTRY").ok();
    let mut ip = Interp::new(tcx);
    let mut entries = vec![];
    for d in tcx.mir_keys(()).iter() {
        let d = d.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn { continue; }
        let name = tcx.item_name(d).to_string();
        if name == "vp_fmt_str" { ip.fmt_helper = Some(d); }
        if name == "vp_to_string" { ip.string_helper = Some(d); }
        if !name.starts_with("w_") { continue; }
        if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        if let Some(o) = &only { if !name.starts_with(o.as_str()) { continue; } }
        entries.push((name, d));
    }
    entries.sort_by(|a, b| a.0.cmp(&b.0));
    let mut refs = BTreeSet::new();
    let mut res = vec![];
    let mut files: BTreeSet<String> = BTreeSet::new();
    let mut entered: BTreeSet<String> = BTreeSet::new();
    let begun = std::time::Instant::now();
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    for (name, d) in entries {
        let t0 = std::time::Instant::now();
        ip.terminals.clear();
        ip.ends.clear();
        ip.tokens.clear();
        ip.effects.clear();
        ip.steps = 0;
        ip.started = t0;
        ip.overdue = false;
        // what cannot be decided must not keep the rest from being decided
        let gone = begun.elapsed().as_secs();
        ip.seconds = if deep { if gone > 240 { 3 } else { 60 } } else if late() { 0 } else if gone < 120 { 40 } else if gone < 200 { 2 } else { 0 };
        ip.splits = 0;
        ip.merges = 0;
        ip.cover.clear();
        let inst = Instance::mono(tcx, d);
        if ip.debug { eprintln!("== {name}"); }
        let mut parts = vec![];
        let mut problems: Vec<String> = vec![];
        let r = (|| -> R<()> {
            let bi = ip.body(inst)?;
            let mut sts: Vec<(State, Vec<u64>)> = vec![(State::new(), vec![])];
            let names: Vec<String> = tcx.fn_arg_idents(d).iter().map(|i| i.map(|x| x.name.to_string()).unwrap_or_default()).collect();
            for (k, l) in bi.body.args_iter().enumerate() {
                let lay = bi.layouts[l.as_usize()];
                let mut nx = vec![];
                for (mut s, mut addrs) in sts {
                    let a = s.alloc(lay.size.bytes() as usize);
                    addrs.push(a);
                    for s2 in ip.fill(s, a, lay, &names[k])? { nx.push((s2, addrs.clone())); }
                }
                sts = nx;
            }
            let rl = bi.layouts[0];
            let mut done: Vec<(State, Blob, Vec<u64>)> = vec![];
            for (s, addrs) in sts {
                let mut args = vec![];
                for (k, l) in bi.body.args_iter().enumerate() {
                    let lay = bi.layouts[l.as_usize()];
                    args.push((ip.read(&s, addrs[k], lay.size.bytes() as usize)?, lay));
                }
                for (s, b) in ip.exec_fn(s, inst, args) { done.push((s, b, addrs.clone())); }
            }
            while let Some((mut st, b0, addrs)) = done.pop() {
                let b = &b0;
                let a = st.alloc(b.len());
                ip.write(&mut st, a, b)?;
                let pl = PlaceV { addr: a, meta: None, layout: rl };
                let mut my = BTreeSet::new();
                let one = (|| -> R<(J, Vec<J>)> {
                    let r = ip.dump(&st, &pl, &mut my, 0)?;
                    let mut outs = vec![];
                    for (k, l) in bi.body.args_iter().enumerate() {
                        let lay = bi.layouts[l.as_usize()];
                        if let ty::Ref(_, t, m) = lay.ty.kind() {
                            if m.is_mut() {
                                let p = PlaceV { addr: addrs[k], meta: None, layout: lay };
                                let dp = ip.deref(&st, &p)?;
                                let j = if dp.layout.is_sized() { ip.dump(&st, &dp, &mut my, 0)? } else if let Some(m) = dp.meta.clone() {
                                    // the whole content window, whatever the length
                                    let cnt = match st.simp_sc(&m) { Sc::C(v, _) => v as u64, _ => if matches!(t.kind(), ty::Slice(_)) { SLICE_CONTENT } else { STR_CONTENT } };
                                    let p2 = PlaceV { addr: dp.addr, meta: Some(Sc::C(cnt.min(SLICE_CONTENT) as u128, 64)), layout: dp.layout };
                                    ip.dump(&st, &p2, &mut my, 0)?
                                } else { J::Null };
                                outs.push(J::A(vec![J::s(names[k].clone()), j]));
                            }
                        }
                    }
                    Ok((r, outs))
                })();
                match one {
                    Ok((r, outs)) => {
                        refs.append(&mut my);
                        let g = guard_json(&st.guard, &mut refs);
                        let log = ip.log_json(&st, &mut refs);
                        parts.push(J::o(vec![("g", g), ("ret", r), ("outs", J::A(outs)), ("log", log), ("approx", J::B(st.approx))]));
                    }
                    Err(Stop::Split(b)) => {
                        st.mem.remove(&(a >> SLOT));
                        let bit = st.simp(b);
                        if is_special(bit) || is_const(bit) { ip.stop(&st, Stop::Stuck("result depends on an unknown value".into())); continue; }
                        let (y, n) = st.branch(bit);
                        for st in [y, n].into_iter().flatten() { done.push((st, b0.clone(), addrs.clone())); }
                    }
                    Err(e) => { ip.stop(&st, e); }
                }
            }
            Ok(())
        })();
        if let Err(e) = r { problems.push(format!("{e:?}")); }
        let mut terms = vec![];
        for t in std::mem::take(&mut ip.terminals) {
            terms.push(J::o(vec![("g", guard_json(&t.guard, &mut refs)), ("kind", J::s(t.kind)), ("msg", J::S(t.msg)), ("trace", J::A(t.trace.into_iter().map(J::S).collect())), ("approx", J::B(t.approx))]));
        }
        let mut toks = vec![];
        for t in std::mem::take(&mut ip.tokens) {
            let b = ip.sc_json(&State::new(), &t.bits, t.signed, &mut refs);
            toks.push(J::o(vec![("kind", J::S(t.kind)), ("v", b), ("opts", J::S(t.opts))]));
        }
        let mut blocks = 0usize;
        let mut local_fns = 0usize;
        for (i, bs) in &ip.cover {
            blocks += bs.len();
            let p = tcx.crate_name(i.def_id().krate).to_string();
            if p.starts_with("packed_struct") || i.def_id().is_local() {
                local_fns += 1;
                let f = ip.span_str(tcx.def_span(i.def_id()));
                files.insert(f);
                if !i.def_id().is_local() { entered.insert(tcx.def_path_str(i.def_id())); }
            }
        }
        res.push(J::o(vec![
            ("name", J::S(name)), ("parts", J::A(parts)), ("terms", J::A(terms)), ("tokens", J::A(toks)),
            ("effects", J::A(ip.effects.iter().map(|e| J::s(e.clone())).collect())),
            ("problems", J::A(problems.into_iter().map(J::S).collect())),
            ("stats", J::o(vec![("steps", J::N(ip.steps as i128)), ("splits", J::N(ip.splits as i128)), ("merges", J::N(ip.merges as i128)),
                ("fns", J::N(ip.cover.len() as i128)), ("local_fns", J::N(local_fns as i128)), ("blocks", J::N(blocks as i128)), ("ms", J::N(t0.elapsed().as_millis() as i128))])),
        ]));
    }
    let j = J::o(vec![("entries", J::A(res)), ("nodes", nodes_json(refs)), ("fns", J::A(files.into_iter().map(J::S).collect())), ("entered", J::A(entered.into_iter().map(J::S).collect()))]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out_path, s).unwrap();
    let _: Option<Rc<()>> = None;
}

/// has the check this analysis belongs to run out of time?
fn late() -> bool {
    let until = std::env::var("VP_UNTIL").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(u64::MAX);
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(false, |d| d.as_secs() > until)
}
