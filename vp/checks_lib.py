"""Checks of the library's own types (C04, C05, C06, C14, C15, C16)."""
from . import corpus as C, model as M, verify as V, runner as R, terms as T
from .model import *
from .checks_struct import lib_entries, progs, lsb, const64, u64, structs, wrap_bits, unwrap_bits, unpack_bits, slice_types, EXPL
from .verify import result, err_name, value_pairs

PAIRS = [(("i" if sg else "u") + str(n), w) for n, lo in ((8, 1), (16, 9), (32, 17), (64, 33)) for w in range(lo, n + 1) for sg in (0, 1)]


def int_ty(nat, w):
    return "Integer<%s, packed_bits::Bits::<%d>>" % (nat, w)


class Sheet:
    """entries of library witnesses, spread over crates, each with its verdict function"""

    def __init__(self, head=M.HEADER, n=8):
        self.txt = [[head] for _ in range(n)]
        self.exp = {}
        self.n = 0
        self.head = head

    def add(self, name, sig, body, fn, args, crate=None):
        i = self.n % len(self.txt) if crate is None else crate % len(self.txt)
        self.n += 1
        self.txt[i].append("pub fn w_%s%s { %s }" % (name, sig, body))
        self.exp["w_" + name] = (fn, args)

    def run(self, run, name, cfg="default"):
        got = lib_entries(run, [("%s%d" % (name, i), "\n".join(t) + "\n") for i, t in enumerate(self.txt) if len(t) > 1 or t[0] != self.head], cfg)
        tasks = []
        for k, (fn, args) in self.exp.items():
            cx = got.get(k)
            if cx is None:
                if not any(f.tag == "build" for f in run.findings):
                    run.find("missing", k, "was not analysed")
                continue
            tasks.append((cx, fn, args))
        run.verify(tasks)
        return len(tasks), got


def verify_value(cx, what, exp):
    """entry returns the value itself on every path"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        pairs = []
        value_pairs(cx, what, exp, p["ret"], pairs)
        cx.same(p["g"], pairs, "value", what)


def verify_bytes(cx, what, exp, in_result=False):
    """entry returns [u8; N] (in a Result that is always Ok)"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        v = p["ret"]
        if in_result:
            ok, v = result(v)
            if ok is False:
                if cx.satisfiable(p["g"]) is not None:
                    cx.find("error", "%s fails with %s" % (what, err_name(v)))
                continue
        bits = V.byte_bits(v)
        if bits is None or len(bits) != len(exp):
            cx.find("size", "%s gives %s bits instead of %d" % (what, bits and len(bits), len(exp)))
            continue
        cx.same(p["g"], [("bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, exp))], "bits", what)


def byte_order(v, order_):
    """value bits (lsb first, whole bytes) -> bits of the bytes in the given order, first bit first"""
    n = len(v) // 8
    by = [v[8 * i:8 * i + 8] for i in range(n)]
    if order_ == "msb":
        by = by[::-1]
    return [b for x in by for b in x[::-1]]


def from_bytes(path, n, order_):
    """the value (lsb first) of n bytes in the given order"""
    idx = range(n) if order_ == "lsb" else range(n - 1, -1, -1)
    return [("l", "%s[%d]" % (path, i), k) for i in idx for k in range(8)]


def c04(run):
    s = Sheet()
    for nat, n in NATIVE.items():
        sg = signed(nat)
        by = n // 8
        for o in ("msb", "lsb"):
            s.add("%s_to_%s" % (nat, o), "(x: &%s) -> [u8; %d]" % (nat, by), "IntegerAsBytes::to_%s_bytes(x)" % o, verify_bytes, ("%s to %s bytes" % (nat, o), byte_order(lsb("x", n), o)))
            s.add("%s_from_%s" % (nat, o), "(b: &[u8; %d]) -> %s" % (by, nat), "<%s as IntegerAsBytes>::from_%s_bytes(b)" % (nat, o), verify_value, ("%s from %s bytes" % (nat, o), ("int", from_bytes("b", by, o))))
            s.add("%s_rt_%s" % (nat, o), "(x: &%s) -> %s" % (nat, nat), "<%s as IntegerAsBytes>::from_%s_bytes(&IntegerAsBytes::to_%s_bytes(x))" % (nat, o, o), verify_value, ("%s through %s bytes" % (nat, o), ("int", lsb("x", n))))
    for nat, w in PAIRS:
        t, n, by, sg = int_ty(nat, w), NATIVE[nat], ceil8(w), signed(nat)
        k = "%s_%d" % (nat, w)
        v = ext(lsb("x", w), 8 * by, sg)
        for o in ("msb", "lsb"):
            s.add("%s_to_%s" % (k, o), "(x: &%s) -> Result<[u8; %d], PackingError>" % (t, by), "SizedInteger::to_%s_bytes(x)" % o, verify_bytes, ("%s to %s bytes" % (t, o), byte_order(v, o), True))
            s.add("%s_from_%s" % (k, o), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (by, t), "<%s as SizedInteger<%s, packed_bits::Bits::<%d>>>::from_%s_bytes(b)" % (t, nat, w, o), V.verify_unpack,
                  ("%s from %s bytes" % (t, o), ("int", ext(from_bytes("b", by, o)[:w], n, sg)), []))
            s.add("%s_rt_%s" % (k, o), "(x: &%s) -> Result<%s, PackingError>" % (t, t), "<%s as SizedInteger<%s, packed_bits::Bits::<%d>>>::from_%s_bytes(&SizedInteger::to_%s_bytes(x)?)" % (t, nat, w, o, o), V.verify_rt,
                  ("%s through %s bytes" % (t, o), ("int", ext(lsb("x", w), n, sg))))
    n, _ = s.run(run, "bytes")
    run.samples.append({"type": int_ty("i32", 29), "functions": ["to_msb_bytes", "from_lsb_bytes"]})
    run.require("conversions analysed", n, 816)
    return run.finish("proof", "All 8 native types and all 128 type/width pairs, all values at once: every bit of every byte is compared with the source bit the byte order assigns to it. Equalities are structural or by enumerating the few input bits involved.",
                      {"functions": n})


def c05(run):
    s = Sheet()
    for nat, w in PAIRS:
        t, n, by, sg = int_ty(nat, w), NATIVE[nat], ceil8(w), signed(nat)
        for o, e in (("M", "msb"), ("L", "lsb")):
            k = "%s_%d_%s" % (nat, w, e)
            wt = "%ssbInteger<%s, packed_bits::Bits::<%d>, %s>" % (o, nat, w, t)
            ub = [("l", "b[%d]" % (i // 8), 7 - i % 8) for i in range(8 * by)]
            un = ("int", ext(unwrap_bits(ub, w, e), n, sg))
            s.add(k + "_p", "(x: &%s) -> Result<[u8; %d], PackingError>" % (wt, by), "x.pack()", verify_bytes, ("packing " + wt, wrap_bits(lsb("x.0", w), w, e), True))
            s.add(k + "_c", "(x: &%s) -> Result<[u8; %d], PackingError>" % (t, by), "x.as_packed_%s().pack()" % e, verify_bytes, ("packing %s through as_packed_%s" % (t, e), wrap_bits(lsb("x", w), w, e), True))
            s.add(k + "_f", "(x: %s) -> Result<[u8; %d], PackingError>" % (t, by), "<%s>::from(x).pack()" % wt, verify_bytes, ("packing %s through From" % wt, wrap_bits(lsb("x", w), w, e), True))
            s.add(k + "_u", "(b: &[u8; %d]) -> Result<%s, PackingError>" % (by, t), "Ok(*<%s as PackedStruct>::unpack(b)?)" % wt, V.verify_unpack, ("unpacking " + wt, un, []))
            s.add(k + "_r", "(x: &%s) -> Result<%s, PackingError>" % (t, t), "Ok(*<%s as PackedStruct>::unpack(&x.as_packed_%s().pack()?)?)" % (wt, e), V.verify_rt, ("round trip of " + wt, ("int", ext(lsb("x", w), n, sg))))
    n, _ = s.run(run, "wrap")
    run.samples.append({"type": "LsbInteger of " + int_ty("u64", 43), "functions": ["pack", "unpack"]})
    run.require("wrapper functions analysed", n, 1280)
    return run.finish("proof", "All 128 type/width pairs in both byte orders, all values at once; packing compared bit by bit except for the padding bits (nothing is promised about them), unpacking with arbitrary padding bits.", {"functions": n})


def serde_entries(s):
    for nat, w in PAIRS:
        t, n, sg = int_ty(nat, w), NATIVE[nat], signed(nat)
        s.add("%s_%d_de" % (nat, w), "(x: %s) -> Result<%s, serde::de::value::Error>" % (nat, t),
              "<%s as serde::Deserialize>::deserialize(<%s as serde::de::IntoDeserializer<serde::de::value::Error>>::into_deserializer(x))" % (t, nat),
              verify_de, ("deserializing " + t, ("int", ext(lsb("x", w), n, sg))))


def verify_de(cx, what, exp):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("error", "%s fails" % what)
            continue
        pairs = []
        value_pairs(cx, what, exp, v, pairs)
        cx.same(p["g"], pairs, "value", what)


def pairs_compile(run, items, cfg="default", edition="2018", head=M.HEADER):
    """[(name, text that must compile, text that must not)]"""
    jobs = []
    for name, good, bad in items:
        jobs.append((name + "_ok", head + good))
        jobs.append((name + "_bad", head + bad))
    res = run.compile_all(jobs, cfg, edition)
    n = 0
    for name, good, bad in items:
        ok, diags = res[name + "_ok"]
        if not ok:
            run.find("rejected", name, "well-formed code does not compile: %s" % "; ".join(d["message"] for d in diags if d.get("level") == "error")[:300], [good])
        ok, diags = res[name + "_bad"]
        if ok:
            run.find("accepted", name, "code that must not compile does", [bad])
        elif any("panicked" in d.get("message", "") and "compiler" in d.get("message", "") for d in diags):
            run.find("rejected", name, "the compiler itself failed")
        else:
            run.samples.append({"rejected": bad[-200:], "because": next((d["message"] for d in diags if d.get("level") == "error"), "?")[:160]})
        n += 2
    run.stats.add("compile-fail witnesses", len(items))
    run.stats.add("compiling twins", len(items))
    return n


INTEGER = "packed_struct::types::Integer"


def integer_rules(run, facts, entered):
    fns = {f["path"]: f for f in facts["fns"] if f["crate"] == "packed_struct"}
    builders = {k for k, f in fns.items() if INTEGER in f.get("builds", []) or any(w.startswith(INTEGER + ".") for w in f.get("writes", []))}
    run.require("functions that set the number of a bit-limited integer", len(builders), 130)
    run.require("functions of the library looked at", len(fns), 1500)
    safe = {k for k, f in fns.items() if f.get("public") and k in entered}
    looked = 0
    for k, f in fns.items():
        if not f.get("public") or k in safe:
            continue
        looked += 1
        seen, work = set(), [(k, [k])]
        while work:
            x, path = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in builders:
                run.find("unchecked-constructor", "%s (%s)" % (k, f["span"]), "sets the number of an Integer and is not one of the conversions whose result was shown to be in range", path)
                break
            for c, _ in fns.get(x, {}).get("calls", []):
                if c in fns and c not in safe:
                    work.append((c, path + [c]))
    run.stats.add("public functions outside the analysed conversions, searched for constructions", looked)
    # in-place access
    n = 0
    for k, f in fns.items():
        if not f.get("public") or not (f.get("self") or "").startswith(INTEGER + "<"):
            continue
        n += 1
        for i in f.get("ins", []):
            if i.startswith("&mut " + INTEGER):
                run.find("in-place", "%s (%s)" % (k, f["span"]), "takes a bit-limited integer by mutable reference: %s" % i)
        if "&mut" in (f.get("out") or ""):
            run.find("in-place", "%s (%s)" % (k, f["span"]), "returns a mutable reference: %s" % f["out"])
    run.require("public functions of Integer looked at", n, 1000)
    for k, f in fns.items():
        for i in f.get("ins", []) or []:
            if f.get("public") and i.startswith("&mut " + INTEGER) and not (f.get("self") or "").startswith(INTEGER):
                run.find("in-place", "%s (%s)" % (k, f["span"]), "takes a bit-limited integer by mutable reference: %s" % i)
    for im in facts["impls"]:
        if im["self"].startswith(INTEGER + "<") and im["trait"] and any(x in im["trait"] for x in ("DerefMut", "AsMut", "BorrowMut", "IndexMut")):
            run.find("in-place", "%s (%s)" % (im["trait"], im["span"]), "gives mutable access to the stored number")
    run.stats.add("implementations looked at", len(facts["impls"]))


C06_PAIRS = [
    ("private_number", "pub fn f(x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { *x }", "pub fn f(x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { x.num }"),
    ("literal", "pub fn f() -> Integer<u8, packed_bits::Bits::<5>> { 3.into() }", "pub fn f() -> Integer<u8, packed_bits::Bits::<5>> { Integer { num: 3, bits: Default::default() } }"),
    ("assign", "pub fn f(mut x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { x = 3.into(); *x }", "pub fn f(mut x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { *x = 33; *x }"),
    ("add_assign", "pub fn f(mut x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { x = (*x + 1).into(); *x }", "pub fn f(mut x: Integer<u8, packed_bits::Bits::<5>>) -> u8 { x += 1; *x }"),
    ("borrow", "pub fn f(x: &Integer<u8, packed_bits::Bits::<5>>) -> &u8 { &**x }", "pub fn f(x: &mut Integer<u8, packed_bits::Bits::<5>>) -> &mut u8 { &mut **x }"),
    ("deref_mut", "fn g<T: core::ops::Deref>() {}\npub fn f() { g::<Integer<u8, packed_bits::Bits::<5>>>() }", "fn g<T: core::ops::DerefMut>() {}\npub fn f() { g::<Integer<u8, packed_bits::Bits::<5>>>() }"),
    ("as_mut", "fn g<T: Copy>() {}\npub fn f() { g::<Integer<i32, packed_bits::Bits::<20>>>() }", "fn g<T: AsMut<i32>>() {}\npub fn f() { g::<Integer<i32, packed_bits::Bits::<20>>>() }"),
    ("borrow_mut", "fn g<T: core::borrow::Borrow<T>>() {}\npub fn f() { g::<Integer<i32, packed_bits::Bits::<20>>>() }", "fn g<T: core::borrow::BorrowMut<i32>>() {}\npub fn f() { g::<Integer<i32, packed_bits::Bits::<20>>>() }"),
    ("too_wide", "pub fn f() -> Integer<u8, packed_bits::Bits::<8>> { 3u8.into() }", "pub fn f() -> Integer<u8, packed_bits::Bits::<9>> { 3u8.into() }"),
    ("other_native", "pub fn f() -> Integer<i16, packed_bits::Bits::<9>> { 3i16.into() }", "pub fn f() -> Integer<i16, packed_bits::Bits::<9>> { 300000i32.into() }"),
    ("pattern", "pub fn f(x: &mut Integer<u8, packed_bits::Bits::<5>>) -> u8 { **x }", "pub fn f(x: &mut Integer<u8, packed_bits::Bits::<5>>) { let Integer { num, .. } = x; *num = 200; }"),
]


def c06(run):
    s = Sheet()
    for nat, w in PAIRS:
        t, n, sg, by = int_ty(nat, w), NATIVE[nat], signed(nat), ceil8(w)
        tr = "<%s as SizedInteger<%s, packed_bits::Bits::<%d>>>" % (t, nat, w)
        k = "%s_%d" % (nat, w)
        inr = ("int", ext(lsb("x", w), n, sg))
        s.add(k + "_from", "(x: %s) -> %s" % (nat, t), "<%s>::from(x)" % t, verify_value, (t + " from " + nat, inr))
        s.add(k + "_into", "(x: %s) -> %s" % (nat, t), "x.into()", verify_value, (nat + " into " + t, inr))
        s.add(k + "_prim", "(x: %s) -> %s" % (nat, t), tr + "::from_primitive(x)", verify_value, (t + " from_primitive", inr))
        s.add(k + "_mask", "() -> %s" % nat, tr + "::value_bit_mask()", verify_value, (t + " value_bit_mask", ("int", [C1] * w + [C0] * (n - w))))
        s.add(k + "_def", "() -> %s" % t, "<%s as Default>::default()" % t, verify_value, (t + " default", ("int", [C0] * n)))
        if sg:
            s.add(k + "_sgn", "(x: %s) -> %s" % (nat, nat), "<%s as SizedIntegerSigned<%s, packed_bits::Bits::<%d>>>::from_unpacked_to_signed(x & (%#xu64 as %s))" % (t, nat, w, (1 << w) - 1, nat), verify_value, (t + " from_unpacked_to_signed", inr))
        s.add(k + "_back", "(x: %s) -> %s" % (t, nat), "SizedInteger::to_primitive(&x)", verify_value, (t + " to_primitive", inr))
        s.add(k + "_deref", "(x: %s) -> %s" % (t, nat), "*x", verify_value, (t + " deref", inr))
        s.add(k + "_unw", "(x: %s) -> %s" % (t, nat), "x.into()", verify_value, (t + " into " + nat, inr))
        s.add(k + "_clone", "(x: &%s) -> %s" % (t, t), "Clone::clone(x)", verify_value, (t + " clone", inr))
        s.add(k + "_wrap", "(x: %s) -> %s" % (t, t), "*<MsbInteger<%s, packed_bits::Bits::<%d>, %s>>::from(x)" % (nat, w, t), verify_value, (t + " through the wrapper", inr))
        for o, e in (("M", "msb"), ("L", "lsb")):
            wt = "%ssbInteger<%s, packed_bits::Bits::<%d>, %s>" % (o, nat, w, t)
            ub = [("l", "b[%d]" % (i // 8), 7 - i % 8) for i in range(8 * by)]
            s.add(k + "_u" + e, "(b: &[u8; %d]) -> Result<%s, PackingError>" % (by, t), "Ok(*<%s as PackedStruct>::unpack(b)?)" % wt, V.verify_unpack, ("unpacking " + wt, ("int", ext(unwrap_bits(ub, w, e), n, sg)), []))
            s.add(k + "_b" + e, "(b: &[u8; %d]) -> Result<%s, PackingError>" % (by, t), "%s::from_%s_bytes(b)" % (tr, e), V.verify_unpack, (t + " from bytes", ("int", ext(from_bytes("b", by, e)[:w], n, sg)), []))
    n, _ = s.run(run, "range")
    entered = set(run.entered)
    run.require("ways to obtain an integer analysed", n, 1856)
    facts = run.facts("f06", M.HEADER)
    if facts:
        integer_rules(run, facts, entered)
    s2 = Sheet(M.HEADER)
    serde_entries(s2)
    m, _ = s2.run(run, "rangede", "serde")
    run.require("deserializations analysed", m, 128)
    facts = run.facts("f06s", M.HEADER, "serde")
    if facts:
        integer_rules(run, facts, run.entered)
    pairs_compile(run, C06_PAIRS)
    return run.finish("proof", "Every public way to obtain a bit-limited integer is analysed for all 128 type/width pairs and all inputs at once: the stored number is the sign- or zero-extension of the low bits. A rule over all "
                      "functions of the library shows that no other public function constructs or writes an Integer, and none gives mutable access to it; compile-fail witnesses (each with a compiling twin) show the compiler refuses direct access.",
                      {"functions": n + m})


CHECKS = {"C04": c04, "C05": c05, "C06": c06}
