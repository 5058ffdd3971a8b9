//! The value domain: bits of hash-consed provenance terms.
//!
//! A bit is a `B`: `node << 1 | negated`.  Node 0 is the constant (0 = zero, 1 = one), node 1 is special
//! (2 = unknown / top, 3 = uninitialised).  Every other node is a leaf (one named input bit), a conjunction, an
//! exclusive or, or the membership of a tuple of bits in a set of intervals (comparison with constants).
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type B = u32;
pub const ZERO: B = 0;
pub const ONE: B = 1;
pub const TOP: B = 2;
pub const UNINIT: B = 3;

pub type ISet = Vec<(u128, u128)>; // sorted, disjoint, non adjacent, inclusive

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const,
    Special,
    Leaf(u32, u32), // name id, bit number
    And(B, B),
    Xor(B, B),
    Set(u32, Rc<ISet>), // tuple id, set
}

#[derive(Default)]
pub struct Table {
    pub nodes: Vec<Node>,
    pub index: HashMap<Node, u32>,
    pub names: Vec<String>,
    pub name_ix: HashMap<String, u32>,
    pub tuples: Vec<Rc<Vec<u32>>>, // node ids, most significant first
    pub tuple_ix: HashMap<Rc<Vec<u32>>, u32>,
    pub tuple_by_sorted: HashMap<Vec<u32>, u32>,
}

thread_local! {
    pub static T: RefCell<Table> = RefCell::new({
        let mut t = Table::default();
        t.nodes.push(Node::Const);
        t.nodes.push(Node::Special);
        t
    });
}

pub fn with<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    T.with(|t| f(&mut t.borrow_mut()))
}

pub fn is_const(b: B) -> bool { b < 2 }
pub fn is_special(b: B) -> bool { b == 2 || b == 3 }
pub fn not(b: B) -> B { if is_special(b) { TOP } else { b ^ 1 } }
pub fn node_of(b: B) -> u32 { b >> 1 }
pub fn node(n: u32) -> Node { with(|t| t.nodes[n as usize].clone()) }

fn intern(n: Node) -> B {
    with(|t| {
        if let Some(&i) = t.index.get(&n) { return i << 1; }
        let i = t.nodes.len() as u32;
        t.nodes.push(n.clone());
        t.index.insert(n, i);
        i << 1
    })
}

pub fn leaf(name: &str, bit: u32) -> B {
    let id = with(|t| {
        if let Some(&i) = t.name_ix.get(name) { return i; }
        let i = t.names.len() as u32;
        t.names.push(name.to_string());
        t.name_ix.insert(name.to_string(), i);
        i
    });
    intern(Node::Leaf(id, bit))
}

pub fn and(a: B, b: B) -> B {
    if a == ZERO || b == ZERO { return ZERO; }
    if is_special(a) || is_special(b) { return TOP; }
    if a == ONE { return b; }
    if b == ONE { return a; }
    if a == b { return a; }
    if a == b ^ 1 { return ZERO; }
    // membership in intervals over the same tuple
    if let Some(r) = and_sets(a, b) { return r; }
    // absorption: a & (a & c), a & !(a & c), a & (!a & c)
    for (x, y) in [(a, b), (b, a)] {
        if let Node::And(p, q) = node(node_of(y)) {
            if y & 1 == 0 {
                if p == x || q == x { return y; }
                if p == x ^ 1 || q == x ^ 1 { return ZERO; }
            } else {
                if p == x ^ 1 || q == x ^ 1 { return x; }
                if p == x { return and(x, q ^ 1); }
                if q == x { return and(x, p ^ 1); }
            }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    intern(Node::And(a, b))
}
pub fn or(a: B, b: B) -> B {
    if a == ONE || b == ONE { return ONE; }
    if is_special(a) || is_special(b) { return TOP; }
    let r = and(a ^ 1, b ^ 1);
    not(r)
}
pub fn xor(a: B, b: B) -> B {
    if is_special(a) || is_special(b) { return TOP; }
    if is_const(a) { return b ^ a; }
    if is_const(b) { return a ^ b; }
    if node_of(a) == node_of(b) { return (a ^ b) & 1; }
    let neg = (a ^ b) & 1;
    let (a, b) = (a & !1, b & !1);
    // xor(x, xor(x, y)) = y
    for (x, y) in [(a, b), (b, a)] {
        if let Node::Xor(p, q) = node(node_of(y)) {
            if p == x { return q ^ neg; }
            if q == x { return p ^ neg; }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    intern(Node::Xor(a, b)) ^ neg
}
pub fn ite(c: B, a: B, b: B) -> B {
    if c == ONE { return a; }
    if c == ZERO { return b; }
    if a == b { return a; }
    if is_special(c) { return TOP; }
    if a == ONE { return or(c, b); }
    if a == ZERO { return and(not(c), b); }
    if b == ONE { return or(not(c), a); }
    if b == ZERO { return and(c, a); }
    or(and(c, a), and(not(c), b))
}

// ---- interval sets -------------------------------------------------------------------------------------------
pub fn iset_norm(mut v: ISet) -> ISet {
    v.sort();
    let mut r: ISet = vec![];
    for (l, h) in v {
        if l > h { continue; }
        if let Some(last) = r.last_mut() {
            if l <= last.1 || last.1.checked_add(1) == Some(l) {
                if h > last.1 { last.1 = h; }
                continue;
            }
        }
        r.push((l, h));
    }
    r
}
pub fn iset_max(bits: u32) -> u128 { if bits >= 128 { !0 } else { (1u128 << bits) - 1 } }
pub fn iset_not(s: &ISet, bits: u32) -> ISet {
    let mut r = vec![];
    let mut next = 0u128;
    let mut open = true;
    for &(l, h) in s {
        if l > next { r.push((next, l - 1)); }
        if h == iset_max(bits) { open = false; break; }
        next = h + 1;
    }
    if open { r.push((next, iset_max(bits))); }
    r
}
pub fn iset_and(a: &ISet, b: &ISet) -> ISet {
    let mut r = vec![];
    for &(l1, h1) in a {
        for &(l2, h2) in b {
            let l = l1.max(l2);
            let h = h1.min(h2);
            if l <= h { r.push((l, h)); }
        }
    }
    iset_norm(r)
}
pub fn iset_or(a: &ISet, b: &ISet) -> ISet {
    let mut r = a.clone();
    r.extend(b.iter().cloned());
    iset_norm(r)
}
pub fn iset_has(s: &ISet, v: u128) -> bool { s.iter().any(|&(l, h)| l <= v && v <= h) }
pub fn iset_single(s: &ISet) -> Option<u128> { if s.len() == 1 && s[0].0 == s[0].1 { Some(s[0].0) } else { None } }
/// keep the values whose bit `k` (0 = least significant) is `v`; exact when small, an over-approximation otherwise
pub fn iset_filter_bit(s: &ISet, k: u32, v: bool) -> ISet {
    let mut r = vec![];
    for &(l, h) in s {
        if h - l < 64 {
            let mut x = l;
            loop {
                if ((x >> k) & 1 == 1) == v { r.push((x, x)); }
                if x == h { break; }
                x += 1;
            }
        } else {
            // trim the ends to the nearest value with the right bit
            let blk = 1u128 << k;
            let mut l2 = l;
            if ((l2 >> k) & 1 == 1) != v { l2 = match (l2 / blk).checked_add(1).and_then(|q| q.checked_mul(blk)) { Some(x) => x, None => continue }; }
            let mut h2 = h;
            if ((h2 >> k) & 1 == 1) != v { let q = h2 / blk; if q == 0 { continue; } h2 = q * blk - 1; }
            if l2 <= h2 && l2 >= l && h2 <= h { r.push((l2, h2)); }
        }
    }
    iset_norm(r)
}

pub fn tuple(nodes: Vec<u32>) -> u32 {
    with(|t| {
        let rc = Rc::new(nodes);
        if let Some(&i) = t.tuple_ix.get(&rc) { return i; }
        let i = t.tuples.len() as u32;
        t.tuples.push(rc.clone());
        let mut s: Vec<u32> = rc.as_ref().clone();
        s.sort();
        t.tuple_by_sorted.entry(s).or_insert(i);
        t.tuple_ix.insert(rc, i);
        i
    })
}
pub fn tuple_nodes(id: u32) -> Rc<Vec<u32>> { with(|t| t.tuples[id as usize].clone()) }

/// the bit "tuple is in set"
pub fn member(tup: u32, set: ISet) -> B {
    let n = tuple_nodes(tup);
    let bits = n.len() as u32;
    if set.is_empty() { return ZERO; }
    if set.len() == 1 && set[0] == (0, iset_max(bits)) { return ONE; }
    if bits == 1 {
        return if iset_has(&set, 1) { n[0] << 1 } else { (n[0] << 1) | 1 };
    }
    if iset_has(&set, 0) {
        let c = iset_not(&set, bits);
        return intern(Node::Set(tup, Rc::new(c))) ^ 1;
    }
    intern(Node::Set(tup, Rc::new(set)))
}
fn set_of(b: B) -> Option<(u32, ISet)> {
    if let Node::Set(t, s) = node(node_of(b)) {
        let s = if b & 1 == 1 { iset_not(&s, tuple_nodes(t).len() as u32) } else { s.as_ref().clone() };
        Some((t, s))
    } else { None }
}
fn and_sets(a: B, b: B) -> Option<B> {
    let (t1, s1) = set_of(a)?;
    let (t2, s2) = set_of(b)?;
    if t1 != t2 { return None; }
    Some(member(t1, iset_and(&s1, &s2)))
}

// ---- scalars -------------------------------------------------------------------------------------------------
/// A scalar of `n` bits, least significant bit first when symbolic.
#[derive(Clone, Debug, PartialEq)]
pub enum Sc {
    C(u128, u32),
    S(Vec<B>),
}
pub fn mask(n: u32) -> u128 { if n >= 128 { !0 } else { (1u128 << n) - 1 } }
impl Sc {
    pub fn c(v: u128, n: u32) -> Sc { Sc::C(v & mask(n), n) }
    pub fn width(&self) -> u32 { match self { Sc::C(_, n) => *n, Sc::S(v) => v.len() as u32 } }
    pub fn from_bits(v: Vec<B>) -> Sc {
        if v.iter().all(|&b| is_const(b)) {
            let mut x = 0u128;
            for (i, &b) in v.iter().enumerate() { x |= (b as u128) << i; }
            Sc::C(x, v.len() as u32)
        } else { Sc::S(v) }
    }
    pub fn bits(&self) -> Vec<B> {
        match self {
            Sc::C(v, n) => (0..*n).map(|i| ((v >> i) & 1) as B).collect(),
            Sc::S(v) => v.clone(),
        }
    }
    pub fn bit(&self, i: u32) -> B {
        match self { Sc::C(v, _) => ((v >> i) & 1) as B, Sc::S(v) => v[i as usize] }
    }
    pub fn konst(&self) -> Option<u128> { if let Sc::C(v, _) = self { Some(*v) } else { None } }
    pub fn top(n: u32) -> Sc { Sc::S(vec![TOP; n as usize]) }
    pub fn boolean(b: B) -> Sc { let mut v = vec![ZERO; 8]; v[0] = b; Sc::from_bits(v) }
    pub fn of_bool(b: bool) -> Sc { Sc::C(b as u128, 8) }
    pub fn map2(a: &Sc, b: &Sc, f: fn(B, B) -> B) -> Sc {
        let (x, y) = (a.bits(), b.bits());
        Sc::from_bits(x.iter().zip(y.iter()).map(|(&p, &q)| f(p, q)).collect())
    }
    pub fn not(&self) -> Sc {
        match self { Sc::C(v, n) => Sc::c(!v, *n), Sc::S(v) => Sc::from_bits(v.iter().map(|&b| not(b)).collect()) }
    }
    pub fn resize(&self, n: u32, signed: bool) -> Sc {
        match self {
            Sc::C(v, w) => {
                let w = *w;
                if n <= w || !signed || w == 0 { Sc::c(*v, n) }
                else if (v >> (w - 1)) & 1 == 1 { Sc::c(v | !mask(w), n) } else { Sc::c(*v, n) }
            }
            Sc::S(v) => {
                let mut r = v.clone();
                let fill = if signed { *r.last().unwrap_or(&ZERO) } else { ZERO };
                r.resize(n as usize, fill);
                Sc::from_bits(r)
            }
        }
    }
    /// sum with carry in; returns (sum, carry out, carry into the top bit)
    pub fn adc(a: &Sc, b: &Sc, cin: B) -> (Sc, B, B) {
        let (x, y) = (a.bits(), b.bits());
        let mut c = cin;
        let mut cprev = cin;
        let mut r = Vec::with_capacity(x.len());
        for (&p, &q) in x.iter().zip(y.iter()) {
            let pq = xor(p, q);
            r.push(xor(pq, c));
            cprev = c;
            // majority
            c = if p == q { p } else if p == c { p } else if q == c { q }
                else if p == not(q) { c } else if p == not(c) { q } else if q == not(c) { p }
                else { or(and(p, q), and(c, or(p, q))) };
        }
        (Sc::from_bits(r), c, cprev)
    }
    /// (a + b, unsigned overflow, signed overflow)
    pub fn add(a: &Sc, b: &Sc) -> (Sc, B, B) {
        if let (Sc::C(x, n), Sc::C(y, _)) = (a, b) {
            let n = *n;
            let s = x.wrapping_add(*y);
            let r = s & mask(n);
            let uo = if n == 128 { s < *x } else { s >> n != 0 };
            let (sx, sy, sr) = (x >> (n - 1) & 1, y >> (n - 1) & 1, r >> (n - 1) & 1);
            let so = sx == sy && sr != sx;
            return (Sc::C(r, n), uo as B, so as B);
        }
        let (r, c, cp) = Sc::adc(a, b, ZERO);
        (r, c, xor(c, cp))
    }
    pub fn sub(a: &Sc, b: &Sc) -> (Sc, B, B) {
        if let (Sc::C(x, n), Sc::C(y, _)) = (a, b) {
            let n = *n;
            let r = x.wrapping_sub(*y) & mask(n);
            let uo = x < y;
            let (sx, sy, sr) = (x >> (n - 1) & 1, y >> (n - 1) & 1, r >> (n - 1) & 1);
            let so = sx != sy && sr != sx;
            return (Sc::C(r, n), uo as B, so as B);
        }
        let (r, c, cp) = Sc::adc(a, &b.not(), ONE);
        (r, not(c), xor(c, cp))
    }
    /// full product in 2n bits, for both operands extended according to the sign
    pub fn mul(a: &Sc, b: &Sc, signed: bool) -> (Sc, B) {
        let n = a.width();
        if let (Sc::C(x, _), Sc::C(y, _)) = (a, b) {
            if signed {
                let sx = sext(*x, n); let sy = sext(*y, n);
                let (p, o) = sx.overflowing_mul(sy);
                let r = (p as u128) & mask(n);
                let ov = o || sext(r, n) != p;
                return (Sc::C(r, n), ov as B);
            }
            let (p, o) = x.overflowing_mul(*y);
            let r = p & mask(n);
            return (Sc::C(r, n), (o || r != p) as B);
        }
        let (x, k) = match (a, b) { (Sc::C(k, _), s) => (s, Some(*k)), (s, Sc::C(k, _)) => (s, Some(*k)), _ => (a, None) };
        match k {
            Some(0) => (Sc::C(0, n), ZERO),
            Some(1) => (x.clone(), ZERO),
            Some(k) if !signed && k.count_ones() <= 4 => {
                let w = 2 * n.min(64);
                if n > 64 { return (Sc::top(n), TOP); }
                let wide = x.resize(w, false);
                let mut acc = Sc::C(0, w);
                for i in 0..n { if k >> i & 1 == 1 { acc = Sc::add(&acc, &wide.shl(i)).0; } }
                let mut ov = ZERO;
                for i in n..w { ov = or(ov, acc.bit(i)); }
                (acc.resize(n, false), ov)
            }
            Some(k) if signed && k.count_ones() <= 4 && n <= 64 => {
                let w = 2 * n;
                let wide = x.resize(w, true);
                let kk = Sc::C(k, n).resize(w, true);
                let mut acc = Sc::C(0, w);
                if let Sc::C(kv, _) = kk { for i in 0..w { if kv >> i & 1 == 1 { acc = Sc::add(&acc, &wide.shl(i)).0; } } }
                let mut ov = ZERO;
                for i in n..w { ov = or(ov, xor(acc.bit(i), acc.bit(n - 1))); }
                (acc.resize(n, false), ov)
            }
            _ => (Sc::top(n), TOP),
        }
    }
    pub fn shl(&self, k: u32) -> Sc {
        match self {
            Sc::C(v, n) => Sc::c(if k >= 128 { 0 } else { v << k }, *n),
            Sc::S(v) => {
                let n = v.len();
                let k = (k as usize).min(n);
                let mut r = vec![ZERO; k];
                r.extend_from_slice(&v[..n - k]);
                Sc::from_bits(r)
            }
        }
    }
    pub fn shr(&self, k: u32, signed: bool) -> Sc {
        let n = self.width();
        let v = self.bits();
        let fill = if signed { *v.last().unwrap_or(&ZERO) } else { ZERO };
        let k = (k as usize).min(n as usize);
        let mut r: Vec<B> = v[k..].to_vec();
        r.resize(n as usize, fill);
        Sc::from_bits(r)
    }
    pub fn eq(a: &Sc, b: &Sc) -> B {
        match (a, b) {
            (Sc::C(x, _), Sc::C(y, _)) => (x == y) as B,
            (Sc::C(x, _), s) | (s, Sc::C(x, _)) => cmp_const(s, &|_| vec![(*x, *x)]),
            (Sc::S(x), Sc::S(y)) => {
                let mut r = ONE;
                let mut parts: Vec<B> = x.iter().zip(y.iter()).map(|(&p, &q)| not(xor(p, q))).collect();
                if parts.iter().any(|&p| p == ZERO) { return ZERO; }
                if parts.iter().any(|&p| is_special(p)) { return TOP; }
                parts.sort();
                parts.dedup();
                for p in parts { r = and(r, p); }
                r
            }
        }
    }
    pub fn lt(a: &Sc, b: &Sc, signed: bool) -> B {
        let n = a.width();
        if signed {
            // bias both operands
            let flip = |s: &Sc| { let mut v = s.bits(); let l = v.len() - 1; v[l] = not(v[l]); Sc::from_bits(v) };
            return Sc::lt(&flip(a), &flip(b), false);
        }
        match (a, b) {
            (Sc::C(x, _), Sc::C(y, _)) => (x < y) as B,
            (s, Sc::C(y, _)) => if *y == 0 { ZERO } else { cmp_const(s, &|_| vec![(0, *y - 1)]) },
            (Sc::C(x, _), s) => if *x == mask(n) { ZERO } else { cmp_const(s, &|n| vec![(*x + 1, mask(n))]) },
            (Sc::S(_), Sc::S(_)) => Sc::sub(a, b).1,
        }
    }
}
pub fn sext(v: u128, n: u32) -> i128 { if n >= 128 { v as i128 } else { ((v << (128 - n)) as i128) >> (128 - n) } }

/// membership of the symbolic scalar in a set of intervals (over its full width), normalised to a tuple of the
/// distinct nodes it is made of
pub fn cmp_const(s: &Sc, f: &dyn Fn(u32) -> ISet) -> B {
    let v = s.bits();
    let n = v.len() as u32;
    let set = f(n);
    if set.len() == 1 && set[0] == (0, mask(n)) { return ONE; }
    if v.iter().any(|&b| is_special(b)) {
        // known bits may still decide an equality
        if let Some(x) = iset_single(&set) {
            for (i, &b) in v.iter().enumerate() { if is_const(b) && (b as u128) != (x >> i & 1) { return ZERO; } }
        }
        return TOP;
    }
    // distinct nodes, most significant first
    let mut order: Vec<u32> = vec![];
    for &b in v.iter().rev() { if !is_const(b) { let nd = node_of(b); if !order.contains(&nd) { order.push(nd); } } }
    let k = order.len() as u32;
    let pos = |nd: u32| -> u32 { k - 1 - order.iter().position(|&x| x == nd).unwrap() as u32 };
    // singletons: one value of the tuple, or none
    let single = |x: u128| -> Option<u128> {
        let mut val = 0u128; let mut seen = 0u128;
        for (i, &b) in v.iter().enumerate() {
            let want = (x >> i & 1) as B;
            if is_const(b) { if b != want { return None; } continue; }
            let p = pos(node_of(b));
            let w = (want ^ (b & 1)) as u128;
            if seen >> p & 1 == 1 { if (val >> p & 1) != w { return None; } } else { seen |= 1 << p; val |= w << p; }
        }
        Some(val)
    };
    if set.iter().all(|&(l, h)| h - l < 64) && set.iter().map(|&(l, h)| h - l + 1).sum::<u128>() <= 256 {
        let mut r = vec![];
        for &(l, h) in &set { let mut x = l; loop { if let Some(t) = single(x) { r.push((t, t)); } if x == h { break; } x += 1; } }
        if r.is_empty() { return ZERO; }
        let t = tuple(order);
        return member(t, iset_norm(r));
    }
    // few distinct bits: enumerate
    if k <= 12 {
        let mut r = vec![];
        for t in 0..(1u128 << k) {
            let mut x = 0u128;
            for (i, &b) in v.iter().enumerate() {
                let bit = if is_const(b) { b as u128 } else { (t >> pos(node_of(b)) & 1) ^ (b & 1) as u128 };
                x |= bit << i;
            }
            if iset_has(&set, x) { r.push((t, t)); }
        }
        let t = tuple(order);
        return member(t, iset_norm(r));
    }
    // contiguous positive bits in order, possibly with a (possibly negated) top bit replicated over the rest
    // value = hi-part (const or copies of the top bit) then low k bits in order
    let low: Vec<B> = v[..k as usize].to_vec();
    let ordered = low.iter().enumerate().all(|(i, &b)| !is_const(b) && pos(node_of(b)) == i as u32 && (b & 1 == 0 || i as u32 == k - 1));
    if ordered {
        let hi = &v[k as usize..];
        let top = low[k as usize - 1];
        if hi.iter().all(|&b| is_const(b)) {
            let mut base = 0u128;
            for (i, &b) in hi.iter().enumerate() { base |= (b as u128) << (k as usize + i); }
            let win: ISet = vec![(base, base | mask(k))];
            let s2: ISet = iset_and(&set, &win).into_iter().map(|(l, h)| (l & mask(k), h & mask(k))).collect();
            let s2 = flip_top(s2, k, top & 1 == 1);
            let t = tuple(order);
            return member(t, s2);
        }
        if hi.iter().all(|&b| node_of(b) == node_of(top)) {
            // two windows, one per value of the top node
            let mut r: ISet = vec![];
            for tv in [0u32, 1] {
                let mut base = 0u128;
                for (i, &b) in hi.iter().enumerate() { base |= ((tv ^ (b & 1)) as u128) << (k as usize + i); }
                let tb = ((tv ^ (top & 1)) as u128) << (k - 1);
                let lo = base | tb;
                let win: ISet = vec![(lo, lo | mask(k - 1))];
                for (l, h) in iset_and(&set, &win) {
                    let m = mask(k - 1);
                    r.push(((l & m) | ((tv as u128) << (k - 1)), (h & m) | ((tv as u128) << (k - 1))));
                }
            }
            let t = tuple(order);
            return member(t, iset_norm(r));
        }
    }
    // general: build comparators from terms
    let mut acc = ZERO;
    for &(l, h) in &set {
        let ge = not(Sc::sub(s, &Sc::C(l, n)).1);
        let le = not(Sc::sub(&Sc::C(h, n), s).1);
        acc = or(acc, and(ge, le));
    }
    acc
}
fn flip_top(s: ISet, k: u32, flip: bool) -> ISet {
    if !flip { return iset_norm(s); }
    let half = 1u128 << (k - 1);
    let mut r = vec![];
    for (l, h) in s {
        if l < half { r.push((l + half, h.min(half - 1) + half)); }
        if h >= half { r.push((l.max(half) - half, h - half)); }
    }
    iset_norm(r)
}
