//! Abstract memory, path guards, and lossless merging of partitions.
use crate::bits::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const SLOT: u32 = 26; // each allocation owns 2^26 addresses
// (unlikely as data: addresses of different objects are recognised by their value when partitions are merged)
pub const LOCAL_BASE: u64 = 0x9_53a6_9d10; // slot numbers of allocations
pub const GLOBAL_BASE: u64 = 0xb_69c5_a720; // slot numbers of immutable global allocations
pub const FN_BASE: u64 = 0xd_a935_6b40; // slot numbers of functions
pub const TYPE_BASE: u64 = 0xf_5ac3_9680;

#[derive(Clone, Debug, PartialEq)]
pub struct Blob {
    pub data: Vec<u8>,
    pub kind: Vec<u8>, // 0 constant, 1 uninitialised, 2 symbolic
    pub sym: BTreeMap<u32, [B; 8]>,
}
impl Blob {
    pub fn uninit(n: usize) -> Blob { Blob { data: vec![0; n], kind: vec![1; n], sym: BTreeMap::new() } }
    pub fn bytes(d: &[u8]) -> Blob { Blob { data: d.to_vec(), kind: vec![0; d.len()], sym: BTreeMap::new() } }
    pub fn len(&self) -> usize { self.data.len() }
    pub fn set_byte(&mut self, i: usize, b: [B; 8]) {
        if b.iter().all(|&x| is_const(x)) {
            let mut v = 0u8;
            for k in 0..8 { v |= (b[k] as u8) << k; }
            if self.kind[i] == 2 { self.sym.remove(&(i as u32)); }
            self.kind[i] = 0; self.data[i] = v;
        } else if b.iter().all(|&x| x == UNINIT) {
            if self.kind[i] == 2 { self.sym.remove(&(i as u32)); }
            self.kind[i] = 1; self.data[i] = 0;
        } else { self.kind[i] = 2; self.data[i] = 0; self.sym.insert(i as u32, b); }
    }
    pub fn get_byte(&self, i: usize) -> [B; 8] {
        match self.kind[i] {
            0 => { let v = self.data[i]; let mut r = [ZERO; 8]; for k in 0..8 { r[k] = ((v >> k) & 1) as B; } r }
            1 => [UNINIT; 8],
            _ => self.sym[&(i as u32)],
        }
    }
    pub fn slice(&self, off: usize, n: usize) -> Blob {
        let mut r = Blob { data: self.data[off..off + n].to_vec(), kind: self.kind[off..off + n].to_vec(), sym: BTreeMap::new() };
        if !self.sym.is_empty() {
            for (k, v) in self.sym.range(off as u32..(off + n) as u32) { r.sym.insert(k - off as u32, *v); }
        }
        r
    }
    pub fn write(&mut self, off: usize, b: &Blob) {
        let n = b.len();
        if n == 0 { return; }
        if !self.sym.is_empty() {
            let ks: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
            for k in ks { self.sym.remove(&k); }
        }
        self.data[off..off + n].copy_from_slice(&b.data);
        self.kind[off..off + n].copy_from_slice(&b.kind);
        for (k, v) in &b.sym { self.sym.insert(k + off as u32, *v); }
    }
    pub fn scalar(&self, off: usize, n: usize) -> Sc {
        if self.kind[off..off + n].iter().all(|&k| k == 0) {
            let mut v = 0u128;
            for i in 0..n { v |= (self.data[off + i] as u128) << (8 * i); }
            return Sc::C(v, 8 * n as u32);
        }
        let mut r = Vec::with_capacity(8 * n);
        for i in 0..n { for b in self.get_byte(off + i) { r.push(if b == UNINIT { TOP } else { b }); } }
        Sc::from_bits(r)
    }
    pub fn from_scalar(s: &Sc) -> Blob {
        let n = (s.width() / 8) as usize;
        match s {
            Sc::C(v, _) => Blob { data: (0..n).map(|i| (v >> (8 * i)) as u8).collect(), kind: vec![0; n], sym: BTreeMap::new() },
            Sc::S(b) => {
                let mut r = Blob::uninit(n);
                for i in 0..n { let mut x = [ZERO; 8]; x.copy_from_slice(&b[8 * i..8 * i + 8]); r.set_byte(i, x); }
                r
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Guard {
    pub lits: BTreeMap<u32, bool>,
    pub sets: BTreeMap<u32, Rc<ISet>>,
    pub ors: Vec<Rc<Vec<Guard>>>,
}

#[derive(Clone)]
pub struct State {
    pub mem: HashMap<u64, Rc<Blob>>,
    pub next: u64,
    pub guard: Guard,
    pub log: Rc<Blob>,
    /// a condition on the way here could not be decided: the partition may have no members
    pub approx: bool,
    /// the conditions this partition was split off by
    pub hist: Option<Rc<Split>>,
}

/// One side of a split: `guard` is what was known before.
pub struct Split { pub parent: Option<Rc<Split>>, pub bit: B, pub guard: Guard, pub depth: u32 }
impl Drop for Split {
    // (long chains must not be dropped recursively)
    fn drop(&mut self) {
        let mut p = self.parent.take();
        while let Some(x) = p { match Rc::try_unwrap(x) { Ok(mut y) => { p = y.parent.take(); } Err(_) => break } }
    }
}

impl State {
    pub fn new() -> State {
        State { mem: HashMap::new(), next: LOCAL_BASE, guard: Guard::default(), log: Rc::new(Blob::uninit(0)), approx: false, hist: None }
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.next;
        self.next += 1;
        self.mem.insert(id, Rc::new(Blob::uninit(n)));
        id << SLOT
    }
    /// the bit under this partition's guard
    pub fn simp(&self, b: B) -> B {
        if b < 4 { return b; }
        if self.guard.lits.is_empty() && self.guard.sets.is_empty() { return b; }
        let mut memo = HashMap::new();
        self.simp_m(b, &mut memo)
    }
    fn simp_m(&self, b: B, memo: &mut HashMap<u32, B>) -> B {
        if b < 4 { return b; }
        let n = node_of(b);
        if let Some(&v) = self.guard.lits.get(&n) { return (v as B) ^ (b & 1); }
        let nd = node(n);
        if let Node::Leaf(..) = nd { return b; }
        if let Some(&r) = memo.get(&n) { return r ^ (b & 1); }
        let r = match nd {
            Node::And(p, q) => { let p = self.simp_m(p, memo); if p == ZERO { ZERO } else { and(p, self.simp_m(q, memo)) } }
            Node::Xor(p, q) => xor(self.simp_m(p, memo), self.simp_m(q, memo)),
            Node::Set(t, s) => self.simp_set(t, &s, memo),
            _ => n << 1,
        };
        memo.insert(n, r);
        r ^ (b & 1)
    }
    fn simp_set(&self, t: u32, s: &ISet, memo: &mut HashMap<u32, B>) -> B {
        let nodes = tuple_nodes(t);
        let w = nodes.len() as u32;
        if let Some(have) = self.guard.sets.get(&t) {
            let i = iset_and(have, s);
            if i.is_empty() { return ZERO; }
            if &i == have.as_ref() { return ONE; }
        }
        let bits: Vec<B> = nodes.iter().rev().map(|&n| self.simp_m(n << 1, memo)).collect(); // lsb first
        if bits.iter().enumerate().all(|(i, &b)| b == nodes[nodes.len() - 1 - i] << 1) { return member(t, s.clone()); }
        let s2 = s.clone();
        match Sc::from_bits(bits) {
            Sc::C(v, _) => iset_has(s, v) as B,
            sc => cmp_const(&sc, &move |_| { let _ = w; s2.clone() }),
        }
    }
    pub fn simp_sc(&self, s: &Sc) -> Sc {
        match s {
            Sc::C(..) => s.clone(),
            Sc::S(v) => {
                if self.guard.lits.is_empty() && self.guard.sets.is_empty() { return s.clone(); }
                let mut memo = HashMap::new();
                Sc::from_bits(v.iter().map(|&b| self.simp_m(b, &mut memo)).collect())
            }
        }
    }
    /// both halves of the partition, as far as they exist
    pub fn branch(self, b: B) -> (Option<State>, Option<State>) {
        let hist = self.hist.clone();
        let (mut y, mut n) = (self.clone(), self);
        let (cy, cn) = (y.assume(b), n.assume(not(b)));
        if !cy { n.hist = hist.clone(); }
        if !cn { y.hist = hist; }
        (if cy { Some(y) } else { None }, if cn { Some(n) } else { None })
    }
    /// assume the bit is 1; false if that contradicts the guard
    pub fn assume(&mut self, b: B) -> bool {
        let b = self.simp(b);
        if b == ONE { return true; }
        if !is_special(b) && !is_const(b) {
            let depth = self.hist.as_ref().map_or(0, |x| x.depth) + 1;
            self.hist = Some(Rc::new(Split { parent: self.hist.clone(), bit: b, guard: self.guard.clone(), depth }));
        }
        self.assume_in(b)
    }
    fn assume_in(&mut self, b: B) -> bool {
        let mut work = vec![b];
        while let Some(b) = work.pop() {
            let b = self.simp(b);
            if b == ONE { continue; }
            if b == ZERO { return false; }
            if is_special(b) { self.approx = true; continue; } // nothing known about an unknown bit
            let n = node_of(b);
            let v = b & 1 == 0;
            match node(n) {
                Node::And(p, q) => {
                    if v { work.push(p); work.push(q); continue; }
                    self.guard.lits.insert(n, v);
                }
                Node::Xor(..) | Node::Leaf(..) => { self.guard.lits.insert(n, v); }
                Node::Set(t, s) => {
                    let nodes = tuple_nodes(t);
                    let w = nodes.len() as u32;
                    let s = if v { s.as_ref().clone() } else { iset_not(&s, w) };
                    let mut cur = match self.guard.sets.get(&t) { Some(h) => iset_and(h, &s), None => s };
                    // use what is already known of the members
                    for (i, &m) in nodes.iter().enumerate() {
                        let x = self.simp(m << 1);
                        if is_const(x) { cur = iset_filter_bit(&cur, w - 1 - i as u32, x == ONE); }
                    }
                    if cur.is_empty() { return false; }
                    if let Some(x) = iset_single(&cur) {
                        self.guard.sets.remove(&t);
                        for (i, &m) in nodes.iter().enumerate() {
                            let bit = x >> (w - 1 - i as u32) & 1 == 1;
                            work.push((m << 1) | (!bit as B));
                        }
                        continue;
                    }
                    self.guard.sets.insert(t, Rc::new(cur));
                }
                _ => {}
            }
            // propagate to the sets that mention this node
            let ts: Vec<u32> = self.guard.sets.keys().cloned().collect();
            for t in ts {
                let nodes = tuple_nodes(t);
                if let Some(i) = nodes.iter().position(|&m| m == n) {
                    if matches!(node(n), Node::Set(..)) { continue; }
                    let w = nodes.len();
                    let cur = self.guard.sets[&t].clone();
                    let c2 = iset_filter_bit(&cur, (w - 1 - i) as u32, v);
                    if c2.is_empty() { return false; }
                    let all: Option<u128> = nodes.iter().try_fold(0u128, |a, &m| { let x = self.simp(m << 1); if is_const(x) { Some(a << 1 | x as u128) } else { None } });
                    if let Some(x) = all { if !iset_has(&c2, x) { return false; } self.guard.sets.remove(&t); continue; }
                    if let Some(x) = iset_single(&c2) {
                        self.guard.sets.remove(&t);
                        for (i, &m) in nodes.iter().enumerate() { let bit = x >> (w - 1 - i) & 1 == 1; work.push((m << 1) | (!bit as B)); }
                        continue;
                    }
                    self.guard.sets.insert(t, Rc::new(c2));
                }
            }
            // negated conjunctions that became unit
            let negs: Vec<u32> = self.guard.lits.iter().filter(|(_, v)| !**v).map(|(n, _)| *n).collect();
            for m in negs {
                if let Node::And(p, q) = node(m) {
                    let (p, q) = (self.simp(p), self.simp(q));
                    if p == ONE && q == ONE { return false; }
                    if p == ONE { work.push(not(q)); } else if q == ONE { work.push(not(p)); }
                }
            }
            // disjunctive facts
            let ors = std::mem::take(&mut self.guard.ors);
            let mut keep = vec![];
            let mut units = vec![];
            for o in ors {
                let live: Vec<Guard> = o.iter().filter(|g| self.consistent(g)).cloned().collect();
                if live.is_empty() { return false; }
                if live.len() == 1 { units.push(live[0].clone()); continue; }
                if live.len() == o.len() { keep.push(o); } else { keep.push(Rc::new(live)); }
            }
            self.guard.ors = keep;
            for g in units {
                for (n, v) in &g.lits { work.push((n << 1) | (!*v as B)); }
                for (t, s) in &g.sets { work.push(member(*t, s.as_ref().clone())); }
                self.guard.ors.extend(g.ors.iter().cloned());
            }
        }
        true
    }
    fn consistent(&self, g: &Guard) -> bool {
        for (n, v) in &g.lits { let x = self.simp(n << 1); if is_const(x) && (x == ONE) != *v { return false; } }
        for (t, s) in &g.sets { if self.simp(member(*t, s.as_ref().clone())) == ZERO { return false; } }
        g.ors.iter().all(|o| o.iter().any(|h| self.consistent(h)))
    }
}

/// A bit that equals `vals[j]` under every `states[j]`, if one is found.
fn explain(vals: &[B], states: &[&State]) -> Option<B> {
    let d: Vec<B> = vals.iter().zip(states).map(|(&v, s)| s.simp(v)).collect();
    if d.iter().any(|&b| b == UNINIT) {
        return if d.iter().all(|&b| b == UNINIT) { Some(UNINIT) } else { None };
    }
    if d.iter().all(|&b| b == d[0]) { return Some(d[0]); }
    if d.iter().any(|&b| b == TOP) { return None; }
    let ok = |c: B| states.iter().zip(&d).all(|(s, &v)| s.simp(c) == v);
    let mut seen = vec![];
    for &v in vals { if v >= 4 && !seen.contains(&v) { seen.push(v); if seen.len() < 8 && ok(v) { return Some(v); } } }
    // leaf literals fixed in the first partition
    for (&n, &v) in &states[0].guard.lits {
        if !is_const(d[0]) { break; }
        let c = (n << 1) | ((v as B) ^ d[0]);
        if let Some(&w) = states[states.len() - 1].guard.lits.get(&n) { if ((w as B) ^ (c & 1)) != d[d.len() - 1] { continue; } }
        if ok(c) { return Some(c); }
    }
    None
}

fn merge_blob(bs: &[&Rc<Blob>], states: &[&State]) -> Option<Rc<Blob>> {
    let b0 = bs[0];
    if bs.iter().all(|b| Rc::ptr_eq(b, b0)) { return Some(b0.clone()); }
    if bs.iter().any(|b| b.len() != b0.len()) { return None; }
    if bs.iter().all(|b| ***b == **b0) { return Some(b0.clone()); }
    // addresses of different objects are not merged: a symbolic address cannot be followed
    for i in (0..b0.len()).step_by(8) {
        if i + 8 > b0.len() { break; }
        if bs.iter().any(|b| b.kind[i..i + 8].iter().any(|&k| k != 0)) || bs.iter().all(|b| b.data[i..i + 8] == b0.data[i..i + 8]) { continue; }
        for (b, s) in bs.iter().zip(states) {
            let mut v = [0u8; 8];
            v.copy_from_slice(&b.data[i..i + 8]);
            let slot = u64::from_le_bytes(v) >> SLOT;
            if slot != 0 && (s.mem.contains_key(&slot) || [GLOBAL_BASE, FN_BASE, TYPE_BASE].iter().any(|&g| slot >= g && slot < g + (1 << 20))) { return None; }
        }
    }
    let mut r = (**b0).clone();
    for i in 0..b0.len() {
        let same = bs.iter().all(|b| b.kind[i] == b0.kind[i] && b.data[i] == b0.data[i] && (b0.kind[i] != 2 || b.sym[&(i as u32)] == b0.sym[&(i as u32)]));
        if same { continue; }
        let bytes: Vec<[B; 8]> = bs.iter().map(|b| b.get_byte(i)).collect();
        // wholly uninitialised in some partition: keep it uninitialised only if nobody can read it; refuse
        let mut out = [ZERO; 8];
        for k in 0..8 {
            let vals: Vec<B> = bytes.iter().map(|b| b[k]).collect();
            out[k] = if vals.iter().all(|&v| v == vals[0]) { vals[0] } else { explain(&vals, states)? };
        }
        r.set_byte(i, out);
    }
    Some(Rc::new(r))
}

pub fn guard_minus(g: &Guard, common: &Guard) -> Guard {
    let mut r = Guard::default();
    for (n, v) in &g.lits { if common.lits.get(n) != Some(v) { r.lits.insert(*n, *v); } }
    for (t, s) in &g.sets { if common.sets.get(t) != Some(s) { r.sets.insert(*t, s.clone()); } }
    for o in &g.ors { if !common.ors.iter().any(|p| Rc::ptr_eq(p, o) || p == o) { r.ors.push(o.clone()); } }
    r
}
fn as_set(g: &Guard) -> Option<(u32, ISet)> {
    if !g.ors.is_empty() { return None; }
    if g.sets.len() == 1 {
        let (t, s) = g.sets.iter().next().unwrap();
        let nodes = tuple_nodes(*t);
        let mut s = s.as_ref().clone();
        for (n, v) in &g.lits {
            let i = nodes.iter().position(|m| m == n)?;
            let before = s.clone();
            s = iset_filter_bit(&s, (nodes.len() - 1 - i) as u32, *v);
            // only exact when every interval is small
            if before.iter().any(|&(l, h)| h - l >= 64) { return None; }
        }
        return Some((*t, s));
    }
    if g.sets.is_empty() && !g.lits.is_empty() {
        let key: Vec<u32> = g.lits.keys().cloned().collect();
        let t = with(|t| t.tuple_by_sorted.get(&key).cloned());
        let t = match t { Some(t) => t, None => { if key.len() > 1 { return None; } tuple(key) } };
        let nodes = tuple_nodes(t);
        let mut v = 0u128;
        for n in nodes.iter() { v = v << 1 | g.lits[n] as u128; }
        return Some((t, vec![(v, v)]));
    }
    None
}

pub fn merge_guards(gs: &[&Guard]) -> Guard {
    let mut common = Guard::default();
    let g0 = gs[0];
    for (n, v) in &g0.lits { if gs.iter().all(|g| g.lits.get(n) == Some(v)) { common.lits.insert(*n, *v); } }
    for (t, s) in &g0.sets { if gs.iter().all(|g| g.sets.get(t) == Some(s)) { common.sets.insert(*t, s.clone()); } }
    for o in &g0.ors { if gs.iter().all(|g| g.ors.iter().any(|p| Rc::ptr_eq(p, o) || p == o)) { common.ors.push(o.clone()); } }
    let rests: Vec<Guard> = gs.iter().map(|g| guard_minus(g, &common)).collect();
    if rests.iter().any(|r| r.lits.is_empty() && r.sets.is_empty() && r.ors.is_empty()) { return common; }
    // complementary single literals
    if rests.iter().all(|r| r.lits.len() == 1 && r.sets.is_empty() && r.ors.is_empty()) {
        let n = *rests[0].lits.keys().next().unwrap();
        if rests.iter().all(|r| r.lits.contains_key(&n)) && rests.iter().any(|r| r.lits[&n] != rests[0].lits[&n]) { return common; }
    }
    // sets over one tuple
    let sets: Option<Vec<(u32, ISet)>> = rests.iter().map(as_set).collect();
    if let Some(sets) = sets {
        let t = sets[0].0;
        if sets.iter().all(|s| s.0 == t) {
            let mut u: ISet = vec![];
            for s in &sets { u = iset_or(&u, &s.1); }
            if let Some(h) = common.sets.get(&t) { u = iset_and(&u, h); }
            let w = tuple_nodes(t).len() as u32;
            if !(u.len() == 1 && u[0] == (0, iset_max(w))) { if w > 1 { common.sets.insert(t, Rc::new(u)); } } else { common.sets.remove(&t); }
            return common;
        }
    }
    // drop duplicates
    let mut ds: Vec<Guard> = vec![];
    for r in rests { if !ds.contains(&r) { ds.push(r); } }
    if ds.len() > 1 { common.ors.push(Rc::new(ds)); }
    common
}

/// The guard of several partitions together, found from the splits that led to them: what was known before the first split that
/// separates them, and the disjunction of the ways from there.
fn join(ss: &[&State]) -> (Guard, Option<Rc<Split>>) {
    let ptr = |h: &Option<Rc<Split>>| h.as_ref().map_or(std::ptr::null(), |x| Rc::as_ptr(x));
    let depth = |h: &Option<Rc<Split>>| h.as_ref().map_or(0, |x| x.depth);
    let mut top = ss[0].hist.clone();
    for s in &ss[1..] {
        let mut h = s.hist.clone();
        while ptr(&h) != ptr(&top) {
            if depth(&h) >= depth(&top) { h = h.unwrap().parent.clone(); } else { top = top.unwrap().parent.clone(); }
        }
    }
    let mut base = None;
    let mut ways: Vec<Vec<Rc<Split>>> = vec![];
    for s in ss {
        let mut way = vec![];
        let mut h = s.hist.clone();
        while ptr(&h) != ptr(&top) { let x = h.unwrap(); h = x.parent.clone(); way.push(x); }
        match way.last() { Some(x) => base = Some(x.guard.clone()), None => return (s.guard.clone(), top) }
        ways.push(way);
    }
    let base = base.unwrap();
    let f = disjunction(&mut ways);
    if f == ONE { return (base, top); }
    let gs: Vec<&Guard> = ss.iter().map(|s| &s.guard).collect();
    let mut g = merge_guards(&gs);
    if g.ors.iter().any(|o| o.len() > 16 || o.iter().any(|h| !h.ors.is_empty())) {
        let mut t = State::new();
        t.guard = base.clone();
        if t.assume_in(f) {
            let known = std::mem::replace(&mut g, t.guard);
            for (n, v) in known.lits { g.lits.insert(n, v); }
            for (t, s) in known.sets { g.sets.entry(t).or_insert(s); }
        }
    }
    let depth = depth(&top) + 1;
    (g, Some(Rc::new(Split { parent: top, bit: f, guard: base, depth })))
}
/// (each way leads from the state it ends in to the common one; the last element is the first split)
fn disjunction(ways: &mut Vec<Vec<Rc<Split>>>) -> B {
    let mut prefix = ONE;
    loop {
        if ways.iter().any(|w| w.is_empty()) { return prefix; }
        let p0 = Rc::as_ptr(ways[0].last().unwrap());
        if !ways.iter().all(|w| Rc::as_ptr(w.last().unwrap()) == p0) { break; }
        prefix = and(prefix, ways[0].last().unwrap().bit);
        for w in ways.iter_mut() { w.pop(); }
    }
    let mut groups: Vec<(B, *const Split, Vec<Vec<Rc<Split>>>)> = vec![];
    for w in ways.drain(..) {
        let x = w.last().unwrap();
        let (b, p) = (x.bit, Rc::as_ptr(x));
        match groups.iter_mut().find(|g| g.1 == p) { Some(g) => g.2.push(w), None => groups.push((b, p, vec![w])) }
    }
    let mut fs: Vec<(B, B)> = groups.into_iter().map(|(b, _, mut ws)| (b, disjunction(&mut { for w in ws.iter_mut() { w.pop(); } ws }))).collect();
    let mut r = ZERO;
    while let Some((b, f)) = fs.pop() {
        match fs.iter().position(|x| x.0 == b ^ 1) {
            Some(i) => { let (_, e) = fs.remove(i); r = or(r, if e == f { f } else { ite(b, f, e) }); }
            None => r = or(r, and(b, f)),
        }
    }
    and(prefix, r)
}

fn try_merge(ss: &[&State], rets: &[&Blob]) -> Option<(State, Blob)> {
    let s0 = ss[0];
    // same live allocations
    for s in &ss[1..] { if s.mem.len() != s0.mem.len() || s.log.len() != s0.log.len() { return None; } }
    let mut mem = HashMap::with_capacity(s0.mem.len());
    for (id, b) in &s0.mem {
        let mut bs = Vec::with_capacity(ss.len());
        let mut all = true;
        for s in ss { let x = s.mem.get(id)?; if !Rc::ptr_eq(x, b) { all = false; } bs.push(x); }
        mem.insert(*id, if all { b.clone() } else { merge_blob(&bs, ss)? });
    }
    let logs: Vec<&Rc<Blob>> = ss.iter().map(|s| &s.log).collect();
    let log = merge_blob(&logs, ss)?;
    // texts are kept apart unless they differ in binary digits only
    if !logs.iter().all(|l| Rc::ptr_eq(l, logs[0])) {
        let mut token = false;
        for i in 0..log.len() {
            if log.kind[i] == 0 && log.data[i] == b'{' { token = log.kind.get(i + 1) == Some(&0) && log.data[i + 1] == b'#'; }
            if log.kind[i] == 0 && log.data[i] == b'}' { token = false; }
            let same = logs.iter().all(|l| l.kind[i] == log.kind[i] && (log.kind[i] != 2 || l.sym[&(i as u32)] == log.sym[&(i as u32)]));
            if !same && log.kind[i] == 2 && (token || log.get_byte(i)[1..].iter().any(|&b| !is_const(b))) { return None; }
        }
    }
    let rr: Vec<Rc<Blob>> = rets.iter().map(|b| Rc::new((*b).clone())).collect();
    let rb: Vec<&Rc<Blob>> = rr.iter().collect();
    let ret = merge_blob(&rb, ss)?;
    let (guard, hist) = join(ss);
    let next = ss.iter().map(|s| s.next).max().unwrap();
    let approx = ss.iter().any(|s| s.approx);
    Some((State { mem, next, guard, log, approx, hist }, (*ret).clone()))
}

/// Merge what can be merged without losing information.
pub fn merge_all(mut v: Vec<(State, Blob)>) -> Vec<(State, Blob)> {
    if v.len() < 2 { return v; }
    {
        let ss: Vec<&State> = v.iter().map(|x| &x.0).collect();
        let rs: Vec<&Blob> = v.iter().map(|x| &x.1).collect();
        if let Some(m) = try_merge(&ss, &rs) { return vec![m]; }
    }
    let mut groups: Vec<Vec<usize>> = vec![];
    for i in 0..v.len() {
        let mut done = false;
        for g in groups.iter_mut() {
            let mut idx = g.clone();
            idx.push(i);
            let ss: Vec<&State> = idx.iter().map(|&j| &v[j].0).collect();
            let rs: Vec<&Blob> = idx.iter().map(|&j| &v[j].1).collect();
            if try_merge(&ss, &rs).is_some() { *g = idx; done = true; break; }
        }
        if !done { groups.push(vec![i]); }
    }
    let mut out = vec![];
    for g in groups {
        if g.len() == 1 { continue; }
        let ss: Vec<&State> = g.iter().map(|&j| &v[j].0).collect();
        let rs: Vec<&Blob> = g.iter().map(|&j| &v[j].1).collect();
        out.push((g.clone(), try_merge(&ss, &rs).unwrap()));
    }
    if out.is_empty() { return v; }
    let merged: Vec<usize> = out.iter().flat_map(|x| x.0.iter().cloned()).collect();
    let mut res: Vec<(State, Blob)> = out.into_iter().map(|x| x.1).collect();
    let mut i = 0;
    v.retain(|_| { let k = !merged.contains(&i); i += 1; k });
    res.extend(v);
    res
}
