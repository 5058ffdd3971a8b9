//! Transfer functions of intrinsics, the allocator, and integer formatting.
use crate::bits::*;
use crate::interp::*;
use crate::state::*;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_middle::mir::BinOp;

type Arg<'tcx> = (Blob, TyAndLayout<'tcx>);

impl<'tcx> Interp<'tcx> {
    fn sc(&self, a: &Arg<'tcx>) -> Sc { a.0.scalar(0, a.0.len()) }
    fn k(&self, st: &State, a: &Arg<'tcx>) -> R<u128> { let s = self.sc(a); self.konst(st, &s) }
    fn ptr(&self, st: &State, a: &Arg<'tcx>) -> R<u64> { let s = a.0.scalar(0, 8); Ok(self.konst(st, &s)? as u64) }
    fn pointee(&self, t: Ty<'tcx>) -> R<Ty<'tcx>> {
        match t.kind() { ty::RawPtr(t, _) | ty::Ref(_, t, _) => Ok(*t), _ => stuck("pointee") }
    }
    pub fn ptr_place(&mut self, st: &State, a: &Arg<'tcx>) -> R<PlaceV<'tcx>> {
        let t = self.pointee(a.1.ty)?;
        let l = self.layout(t)?;
        let addr = self.ptr(st, a)?;
        let meta = if a.0.len() == 16 { Some(a.0.scalar(8, 8)) } else { None };
        Ok(PlaceV { addr, meta, layout: l })
    }
    pub fn intrinsic(&mut self, st: &mut State, name: &str, inst: Instance<'tcx>, av: &[Arg<'tcx>], dl: TyAndLayout<'tcx>) -> R<Option<Blob>> {
        let dn = dl.size.bytes() as usize;
        let usz = |v: u64| Some(Blob::bytes(&v.to_le_bytes()));
        let unit = Some(Blob::uninit(0));
        let t0 = || inst.args.type_at(0);
        Ok(match name {
            "size_of" => { let l = self.layout(t0())?; usz(l.size.bytes()) }
            "align_of" | "min_align_of" | "pref_align_of" => { let l = self.layout(t0())?; usz(l.align.abi.bytes()) }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let p = self.ptr_place(st, &av[0])?;
                let (s, a) = self.size_align_of_val(st, &p)?;
                usz(if name == "size_of_val" { s } else { a })
            }
            "needs_drop" => Some(Blob::bytes(&[t0().needs_drop(self.tcx, self.env) as u8])),
            "variant_count" => { let n = t0().ty_adt_def().map(|a| a.variants().len()).unwrap_or(0); usz(n as u64) }
            "type_name" => {
                let s = t0().to_string();
                let (a, n) = self.static_str(&s);
                let mut b = Blob::uninit(16);
                b.write(0, &Blob::bytes(&a.to_le_bytes()));
                b.write(8, &Blob::bytes(&n.to_le_bytes()));
                Some(b)
            }
            "type_id_eq" => {
                if av[0].0 == av[1].0 { Some(Blob::bytes(&[1])) } else { Some(Blob::from_scalar(&Sc::boolean(Sc::eq(&self.sc(&av[0]), &self.sc(&av[1]))))) }
            }
            "type_id" => {
                let t = self.tcx.erase_and_anonymize_regions(t0());
                let n = self.typeids.len() as u64;
                let k = *self.typeids.entry(t).or_insert(n);
                let a = (TYPE_BASE + k) << SLOT;
                let mut b = Blob::uninit(dn);
                for i in 0..dn / 8 { b.write(8 * i, &Blob::bytes(&(a + i as u64).to_le_bytes())); }
                Some(b)
            }
            "transmute" | "transmute_unchecked" => { if av[0].0.len() != dn { return stuck("transmute size"); } Some(av[0].0.clone()) }
            "black_box" | "forget" | "assume" | "likely" | "unlikely" | "cold_path" => {
                Some(match name { "black_box" | "likely" | "unlikely" => av[0].0.clone(), _ => Blob::uninit(0) })
            }
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => unit,
            "ub_checks" | "contract_checks" | "is_val_statically_known" => Some(Blob::bytes(&[0])),
            "overflow_checks" => Some(Blob::bytes(&[1])),
            "const_eval_select" => return Ok(None),
            "offset" | "arith_offset" | "ptr_offset" => {
                let t = self.pointee(av[0].1.ty)?;
                let sz = self.layout(t)?.size.bytes();
                let p = self.ptr(st, &av[0])?;
                let k = self.k(st, &av[1])? as u64;
                usz(p.wrapping_add(k.wrapping_mul(sz)))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let t = self.pointee(av[0].1.ty)?;
                let sz = self.layout(t)?.size.bytes() as i64;
                let a = self.ptr(st, &av[0])? as i64;
                let b = self.ptr(st, &av[1])? as i64;
                usz((a.wrapping_sub(b) / sz) as u64)
            }
            "ptr_guaranteed_cmp" => Some(Blob::bytes(&[(av[0].0 == av[1].0) as u8])),
            "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" => {
                let t = self.pointee(av[0].1.ty)?;
                let sz = self.layout(t)?.size.bytes() as usize;
                let (s, d) = (self.ptr(st, &av[0])?, self.ptr(st, &av[1])?);
                let n = self.k(st, &av[2])? as usize * sz;
                let b = self.read(st, s, n)?;
                self.write(st, d, &b)?;
                unit
            }
            "write_bytes" => {
                let t = self.pointee(av[0].1.ty)?;
                let sz = self.layout(t)?.size.bytes() as usize;
                let d = self.ptr(st, &av[0])?;
                let n = self.k(st, &av[2])? as usize * sz;
                let one = &av[1].0;
                let mut b = Blob::uninit(n);
                for i in 0..n { b.write(i, one); }
                self.write(st, d, &b)?;
                unit
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" | "atomic_load" => { let s = self.ptr(st, &av[0])?; Some(self.read(st, s, dn)?) }
            "volatile_store" | "write_via_move" => { let d = self.ptr(st, &av[0])?; let b = av[1].0.clone(); self.write(st, d, &b)?; unit }
            "typed_swap_nonoverlapping" => {
                let n = self.layout(t0())?.size.bytes() as usize;
                let (a, b) = (self.ptr(st, &av[0])?, self.ptr(st, &av[1])?);
                let (x, y) = (self.read(st, a, n)?, self.read(st, b, n)?);
                self.write(st, a, &y)?;
                self.write(st, b, &x)?;
                unit
            }
            "compare_bytes" => {
                let n = self.k(st, &av[2])? as usize;
                let (a, b) = (self.ptr(st, &av[0])?, self.ptr(st, &av[1])?);
                let (x, y) = (self.read(st, a, n)?, self.read(st, b, n)?);
                // lexicographic comparison; equality decided as one membership per byte
                for i in 0..n {
                    let (p, q) = (x.scalar(i, 1), y.scalar(i, 1));
                    let e = st.simp(Sc::eq(&p, &q));
                    if e == ONE { continue; }
                    if e == ZERO {
                        let l = st.simp(Sc::lt(&p, &q, false));
                        if l == ONE { return Ok(Some(Blob::bytes(&(-1i32).to_le_bytes()))); }
                        if l == ZERO { return Ok(Some(Blob::bytes(&1i32.to_le_bytes()))); }
                        return Err(Stop::Split(l));
                    }
                    if is_special(e) { return stuck("comparison of unknown bytes"); }
                    return Err(Stop::Split(e));
                }
                Some(Blob::bytes(&0i32.to_le_bytes()))
            }
            "raw_eq" => {
                let n = self.layout(t0())?.size.bytes() as usize;
                if n == 0 { return Ok(Some(Blob::bytes(&[1]))); }
                let (a, b) = (self.ptr(st, &av[0])?, self.ptr(st, &av[1])?);
                let (x, y) = (self.read(st, a, n)?, self.read(st, b, n)?);
                let mut e = ONE;
                for i in 0..n { e = and(e, Sc::eq(&x.scalar(i, 1), &y.scalar(i, 1))); }
                Some(Blob::from_scalar(&Sc::boolean(e)))
            }
            "discriminant_value" => {
                let p = self.ptr_place(st, &av[0])?;
                let d = self.read_discr(st, &p)?;
                Some(Blob::from_scalar(&d.resize(dn as u32 * 8, p.layout.ty.discriminant_ty(self.tcx).is_signed())))
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match name { "add_with_overflow" => BinOp::AddWithOverflow, "sub_with_overflow" => BinOp::SubWithOverflow, _ => BinOp::MulWithOverflow };
                let (r, o) = self.with_overflow(op, &self.sc(&av[0]), &self.sc(&av[1]), av[0].1.ty.is_signed());
                let mut out = Blob::uninit(dn);
                out.write(dl.fields.offset(0).bytes() as usize, &Blob::from_scalar(&r));
                out.write(dl.fields.offset(1).bytes() as usize, &Blob::from_scalar(&Sc::boolean(o)));
                Some(out)
            }
            "wrapping_add" | "unchecked_add" => Some(Blob::from_scalar(&Sc::add(&self.sc(&av[0]), &self.sc(&av[1])).0)),
            "wrapping_sub" | "unchecked_sub" => Some(Blob::from_scalar(&Sc::sub(&self.sc(&av[0]), &self.sc(&av[1])).0)),
            "wrapping_mul" | "unchecked_mul" => Some(Blob::from_scalar(&Sc::mul(&self.sc(&av[0]), &self.sc(&av[1]), av[0].1.ty.is_signed()).0)),
            "unchecked_div" | "exact_div" | "unchecked_rem" => {
                let op = if name == "unchecked_rem" { BinOp::Rem } else { BinOp::Div };
                let (a, b) = (self.sc(&av[0]), self.sc(&av[1]));
                Some(Blob::from_scalar(&self.binop(st, op, &a, &b, av[0].1.ty)?))
            }
            "unchecked_shl" | "unchecked_shr" => {
                let op = if name == "unchecked_shl" { BinOp::Shl } else { BinOp::Shr };
                let (a, b) = (self.sc(&av[0]), self.sc(&av[1]));
                Some(Blob::from_scalar(&self.binop(st, op, &a, &b, av[0].1.ty)?))
            }
            "saturating_add" | "saturating_sub" => {
                let signed = av[0].1.ty.is_signed();
                let (a, b) = (self.sc(&av[0]), self.sc(&av[1]));
                let n = a.width();
                let (r, uo, so) = if name == "saturating_add" { Sc::add(&a, &b) } else { Sc::sub(&a, &b) };
                if !signed {
                    let sat = if name == "saturating_add" { mask(n) } else { 0 };
                    let o = st.simp(uo);
                    Some(Blob::from_scalar(&Sc::from_bits(r.bits().iter().enumerate().map(|(i, &x)| ite(o, (sat >> i & 1) as B, x)).collect())))
                } else {
                    let o = st.simp(so);
                    let top = a.bit(n - 1);
                    Some(Blob::from_scalar(&Sc::from_bits(r.bits().iter().enumerate().map(|(i, &x)| ite(o, if i as u32 == n - 1 { top } else { not(top) }, x)).collect())))
                }
            }
            "bswap" => {
                let v = self.sc(&av[0]);
                let b = v.bits();
                let n = b.len() / 8;
                let mut r = Vec::with_capacity(b.len());
                for i in 0..n { r.extend_from_slice(&b[8 * (n - 1 - i)..8 * (n - i)]); }
                Some(Blob::from_scalar(&Sc::from_bits(r)))
            }
            "bitreverse" => { let mut b = self.sc(&av[0]).bits(); b.reverse(); Some(Blob::from_scalar(&Sc::from_bits(b))) }
            "rotate_left" | "rotate_right" => {
                let b = self.sc(&av[0]).bits();
                let n = b.len();
                let k = self.k(st, &av[1])? as usize % n;
                let k = if name == "rotate_left" { k } else { (n - k) % n };
                Some(Blob::from_scalar(&Sc::from_bits((0..n).map(|i| b[(i + n - k) % n]).collect())))
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let s = st.simp_sc(&self.sc(&av[0]));
                let n = s.width();
                let w = dn as u32 * 8;
                match s {
                    Sc::C(v, _) => Some(Blob::from_scalar(&Sc::c(match name {
                        "ctpop" => v.count_ones(),
                        "ctlz" | "ctlz_nonzero" => if v == 0 { n } else { v.leading_zeros() - (128 - n) },
                        _ => if v == 0 { n } else { v.trailing_zeros() },
                    } as u128, w))),
                    s if name == "ctpop" => {
                        let mut acc = Sc::C(0, w);
                        for b in s.bits() { acc = Sc::add(&acc, &Sc::from_bits({ let mut v = vec![ZERO; w as usize]; v[0] = b; v })).0; }
                        Some(Blob::from_scalar(&acc))
                    }
                    s => {
                        let mut bits = s.bits();
                        if name.starts_with("ctlz") { bits.reverse(); }
                        // first set bit from the bottom
                        let mut acc = Sc::C(n as u128, w).bits();
                        for (i, &b) in bits.iter().enumerate().rev() {
                            let c = Sc::C(i as u128, w).bits();
                            acc = acc.iter().zip(c.iter()).map(|(&x, &y)| ite(b, y, x)).collect();
                        }
                        Some(Blob::from_scalar(&Sc::from_bits(acc)))
                    }
                }
            }
            "three_way_compare" => { let (a, b) = (self.sc(&av[0]), self.sc(&av[1])); Some(Blob::from_scalar(&self.binop(st, BinOp::Cmp, &a, &b, av[0].1.ty)?)) }
            "disjoint_bitor" | "unchecked_disjoint_bitor" => Some(Blob::from_scalar(&Sc::map2(&self.sc(&av[0]), &self.sc(&av[1]), or))),
            "select_unpredictable" => {
                let c = st.simp(self.sc(&av[0]).bit(0));
                if c == ONE { Some(av[1].0.clone()) } else if c == ZERO { Some(av[2].0.clone()) } else if is_special(c) { return stuck("unknown selection") } else { return Err(Stop::Split(c)) }
            }
            "ptr_metadata" => Some(if av[0].0.len() == 16 { av[0].0.slice(8, 8) } else { Blob::uninit(0) }),
            "aggregate_raw_ptr" => {
                let mut r = Blob::uninit(dn);
                r.write(0, &av[0].0.slice(0, 8));
                if dn == 16 { r.write(8, &av[1].0); }
                Some(r)
            }
            "slice_get_unchecked" => {
                // (slice pointer, index) -> element pointer
                let p = self.ptr_place(st, &av[0])?;
                let i = self.k(st, &av[1])? as u64;
                let e = self.index(&p, i)?;
                Some(self.place_ptr(&e))
            }
            "vtable_size" | "vtable_align" => {
                let p = self.ptr(st, &av[0])?;
                let s = self.read_sc(st, p + if name == "vtable_size" { 8 } else { 16 }, 8)?;
                Some(Blob::from_scalar(&s))
            }
            "caller_location" => {
                let slot = self.gnext;
                self.gnext += 1;
                self.globals.insert(slot, std::rc::Rc::new(Blob::bytes(&[0; 32])));
                usz(slot << SLOT)
            }
            "catch_unwind" => return stuck("catch_unwind"),
            "abort" => { self.effects.insert("abort".into()); return stuck("abort"); }
            _ if name.starts_with("atomic_") => { self.effects.insert(format!("atomic operation {name}")); return stuck(format!("atomic {name}")); }
            _ if dl.ty.is_floating_point() => Some(Blob::from_scalar(&Sc::top(dn as u32 * 8))),
            _ => return Ok(None),
        })
    }

    /// functions modelled rather than analysed
    pub fn intercept(&mut self, st: &mut State, inst: Instance<'tcx>, av: &[Arg<'tcx>], _dl: TyAndLayout<'tcx>) -> R<Option<Blob>> {
        let d = inst.def_id();
        let p = self.path(d);
        let last = p.rsplit("::").next().unwrap_or("");
        match last {
            "vp_sink" => {
                let pl = self.ptr_place(st, &av[0])?;
                let n = self.len_of(st, &pl)? as usize;
                let b = self.read(st, pl.addr, n)?;
                let mut l = (*st.log).clone();
                l.data.resize(l.data.len() + n, 0);
                l.kind.resize(l.kind.len() + n, 0);
                let off = l.len() - n;
                l.write(off, &b);
                st.log = std::rc::Rc::new(l);
                return Ok(Some(Blob::uninit(0)));
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => return Ok(Some(Blob::uninit(0))),
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = self.k(st, &av[0])? as usize;
                if n > 1 << 20 { return stuck("large allocation"); }
                let a = st.alloc(n);
                if last == "__rust_alloc_zeroed" { self.write(st, a, &Blob::bytes(&vec![0; n]))?; }
                return Ok(Some(Blob::bytes(&a.to_le_bytes())));
            }
            "__rust_dealloc" => {
                let a = self.ptr(st, &av[0])?;
                st.mem.remove(&(a >> SLOT));
                return Ok(Some(Blob::uninit(0)));
            }
            "__rust_realloc" => {
                let a = self.ptr(st, &av[0])?;
                let n = self.k(st, &av[3])? as usize;
                let old = match self.blob(st, a) { Some(b) => (**b).clone(), None => return fault("realloc of a dangling pointer") };
                let b = st.alloc(n);
                let m = old.len().min(n);
                let part = old.slice(0, m);
                self.write(st, b, &part)?;
                st.mem.remove(&(a >> SLOT));
                return Ok(Some(Blob::bytes(&b.to_le_bytes())));
            }
            _ => {}
        }
        // formatting of an integer: when its value is not constant, print a placeholder that names it
        if last == "fmt" && av.len() == 2 {
            if let Some(im) = self.tcx.impl_of_assoc(d) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let me = tr.self_ty();
                    if me.is_integral() && !self.tcx.crate_name(d.krate).as_str().starts_with("packed_struct") {
                        // (the receiver may come type-erased, from a formatting argument or a vtable call)
                        let n = self.layout(me)?.size.bytes() as usize;
                        let addr = self.ptr(st, &av[0])?;
                        let s = self.read_sc(st, addr, n)?;
                        let s = st.simp_sc(&s);
                        if let (Sc::S(_), Some(h)) = (&s, self.fmt_helper) {
                            let tname = self.tcx.item_name(tr.def_id).to_string();
                            // formatter options: the FormattingOptions field of the Formatter
                            let fp = self.ptr_place(st, &av[1])?;
                            let fsz = fp.layout.size.bytes() as usize;
                            let mut opts = String::new();
                            for i in 0..fp.layout.fields.count() {
                                let f = self.field(&fp, i)?;
                                if f.layout.ty.to_string().contains("FormattingOptions") {
                                    let b = self.read(st, f.addr, f.layout.size.bytes() as usize)?;
                                    opts = format!("{:?}", b.data);
                                }
                            }
                            let _ = fsz;
                            let signed = me.is_signed();
                            let id = match self.tokens.iter().position(|t| t.kind == tname && t.bits == s && t.opts == opts && t.signed == signed) {
                                Some(i) => i,
                                None => { self.tokens.push(Token { kind: tname, bits: s, signed, opts }); self.tokens.len() - 1 }
                            };
                            let (a, n) = self.static_str(&format!("{{#{id}}}"));
                            let mut sb = Blob::uninit(16);
                            sb.write(0, &Blob::bytes(&a.to_le_bytes()));
                            sb.write(8, &Blob::bytes(&n.to_le_bytes()));
                            let hi = Instance::mono(self.tcx, h);
                            let sl = av[1].1;
                            self.redirect = Some((hi, vec![(av[1].0.clone(), sl), (sb, sl)]));
                            return stuck("redirect");
                        }
                    }
                }
            }
        }
        // `to_string` of an integer writes its digits directly: the same text as formatting it
        if last == "spec_to_string" && av.len() == 1 {
            if let (Some(im), Some(h)) = (self.tcx.impl_of_assoc(d), self.string_helper) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    let me = tr.instantiate_identity().skip_norm_wip().self_ty();
                    if me.is_integral() {
                        let n = self.layout(me)?.size.bytes() as usize;
                        let addr = self.ptr(st, &av[0])?;
                        let s = self.read_sc(st, addr, n)?;
                        if let Sc::S(_) = st.simp_sc(&s) {
                            let hi = Instance::expect_resolve(self.tcx, self.env, h, self.tcx.mk_args(&[me.into()]), self.tcx.def_span(h));
                            self.redirect = Some((hi, vec![(av[0].0.clone(), av[0].1)]));
                            return stuck("redirect");
                        }
                    }
                }
            }
        }
        if self.tcx.is_foreign_item(d) {
            if p.ends_with("miri_promise_symbolic_alignment") { return Ok(Some(Blob::uninit(0))); }
            self.effects.insert(format!("foreign function {p}"));
            return stuck(format!("foreign function {p}"));
        }
        Ok(None)
    }
}
