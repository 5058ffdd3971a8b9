"""Wrapped numbers as numbers (C28), error values (C29), byte arrays (C30)."""
from . import model as M, verify as V, terms as T
from .model import *
from .checks_lib import Sheet, PAIRS, int_ty, verify_value, verify_bytes
from .checks_show import HEAD, Bad, Open, chars, same_text, split, plain
from .checks_struct import lsb
from .verify import result

REC = """use core::hash::{Hash, Hasher};
pub struct Rec { b: [u8; 24], n: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, x: &[u8]) { let mut i = 0; while i < x.len() { if self.n < 24 { self.b[self.n] = x[i]; } self.n += 1; i += 1; } }
}
fn rec<T: Hash>(x: &T) -> ([u8; 24], usize) { let mut r = Rec { b: [0; 24], n: 0 }; x.hash(&mut r); (r.b, r.n) }
"""


def verify_true(cx, what):
    """entry returns a bool that is true on every path"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        r = p["ret"]
        b = r if r in (True, False) else r["b"]
        cx.same(p["g"], [("the answer", int(b) if b in (True, False) else b, ("c", 1))], "value", what)


def verify_halves(cx, what):
    """the text before the mark equals the text after it"""
    if not cx.problems():
        return
    toks = cx.e.get("tokens", [])
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("error", "%s fails" % what)
            continue
        pairs = []
        cs = split(chars(p["log"]), 1)
        try:
            if len(cs) != 2:
                raise Bad("%s: the witness is broken" % what)
            same_text(cx.t, toks, cs[0], cs[1], what, pairs)
        except Open as e:
            cx.st.add("paths left open")
            cx.st.setdefault("open", []).append("%s: %s" % (cx.where, e))
            continue
        except Bad as e:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("text", str(e))
            continue
        cx.same(p["g"], pairs, "text", what)


def verify_digit(cx, what, has, hasnt):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        t = plain(chars(p["log"]))
        cx.st.add("texts read")
        if (has not in t or hasnt in t) and cx.satisfiable(p["g"]) is not None:
            cx.find("text", "%s prints as %r, which does not say %s" % (what, t, has))


def texts(a, b, fmts):
    """write a, the mark, b with each format"""
    w = lambda x: " ".join('write!(s, "%s;", %s)?;' % (f, x) for f in fmts)
    return "let mut s = Sink; %s vp_sink(&[1]); %s Ok(())" % (w(a), w(b))


def c28(run):
    s = Sheet(HEAD + REC)
    FM = ("{}", "{:?}")
    for nat, w in PAIRS:
        t, n, sg = int_ty(nat, w), NATIVE[nat], signed(nat)
        k = "%s_%d" % (nat, w)
        v = ext(lsb("a", w), n, sg)
        ab = "(a: &%s, b: &%s) -> bool" % (t, t)
        s.add(k + "_eq", ab, "(a == b) == (a.to_primitive() == b.to_primitive())", verify_true, ("equality of %s agrees with the numbers'" % t,))
        s.add(k + "_ne", ab, "(a != b) == (a.to_primitive() != b.to_primitive())", verify_true, ("inequality of %s agrees with the numbers'" % t,))
        s.add(k + "_hash", ab, "!(a == b) || rec(a) == rec(b)", verify_true, ("equal values of %s hash alike" % t,))
        s.add(k + "_deref", "(a: &%s) -> %s" % (t, nat), "**a", verify_value, ("dereferencing " + t, ("int", v)))
        s.add(k + "_prim", "(a: &%s) -> %s" % (t, nat), "a.to_primitive()", verify_value, ("to_primitive of " + t, ("int", v)))
        s.add(k + "_into", "(a: %s) -> %s" % (nat, t), "a.into()", verify_value, ("into " + t, ("int", v)))
        s.add(k + "_copy", "(a: &%s) -> %s" % (t, t), "a.clone()", verify_value, ("a clone of " + t, ("int", v)))
        s.add(k + "_default", "() -> %s" % t, "Default::default()", verify_value, ("the default of " + t, ("int", [("c", 0)] * n)))
        s.add(k + "_text", "(a: &%s) -> core::fmt::Result" % t, texts("a", "a.to_primitive()", FM), verify_halves, ("the text of " + t,))
        for e, o in (("msb", "Msb"), ("lsb", "Lsb")):
            wt = "%sInteger<%s, packed_bits::Bits::<%d>, %s>" % (o, nat, w, t)
            s.add(k + "_d" + e, "(a: &%s) -> %s" % (wt, t), "**a", verify_value, ("dereferencing " + wt, ("int", ext(lsb("a.0", w), n, sg))))
            s.add(k + "_f" + e, "(a: %s) -> %s" % (t, wt), "a.into()", verify_value, ("into " + wt, ("int", v)))
            s.add(k + "_a" + e, "(a: &%s) -> %s" % (t, wt), "a.as_packed_%s()" % e, verify_value, ("as_packed_%s of %s" % (e, t), ("int", v)))
            s.add(k + "_t" + e, "(a: &%s) -> core::fmt::Result" % wt, texts("a", "a.to_primitive()", FM), verify_halves, ("the text of " + wt,))
    n, _ = s.run(run, "values")
    z = Sheet(HEAD + REC, 1)
    for w in (1, 2, 5, 7, 8, 9, 16, 31, 64, 130, 255):
        for nm, d, o in (("Zero", "0", "1"), ("Zeroes", "0", "1"), ("One", "1", "0"), ("Ones", "1", "0")):
            t = "Reserved%s<packed_bits::Bits::<%d>>" % (nm, w)
            k = "%s_%d" % (nm, w)
            z.add(k + "_eq", "(a: &%s, b: &%s) -> bool" % (t, t), "a == b && !(a != b) && *a == <%s>::default()" % t, verify_true, ("all values of %s are equal" % t,))
            z.add(k + "_disp", "(a: &%s) -> core::fmt::Result" % t, 'let mut s = Sink; write!(s, "{}", a)', verify_digit, (t, d, o))
            z.add(k + "_debug", "(a: &%s) -> core::fmt::Result" % t, 'let mut s = Sink; write!(s, "{:?}", a)', verify_digit, (t, d, o))
    m, _ = z.run(run, "reserved")
    run.samples.append({"type": int_ty("i32", 29), "rules": ["==", "!=", "Hash", "Deref", "Display", "Debug"]})
    run.require("wrapped number functions analysed", n, 2170)
    run.require("reserved type functions analysed", m, 130)
    return run.finish("proof", "All 128 type and width pairs and their MSB and LSB wrappers, all values (of two operands) at once. Equality is compared with the equality of the plain numbers, hashing by the bytes written to a recording hasher, "
                      "text with the text of the plain number: the same pieces around the same formatting of the same bits.", {"functions": n + m})


# ---- errors ----
ERRORS = {"InvalidValue": [], "BitsError": [], "BufferTooSmall": [], "NotImplemented": [], "InstanceRequiredForSize": [], "MoreThanOneDynamicType": [], "BufferSizeMismatch": ["expected", "actual"],
          "BufferModMismatch": ["actual_size", "modulo_required"], "SliceIndexingError": ["slice_len"], "InternalError": []}


def build_error(v, names):
    return "PackingError::%s%s" % (v, " { %s }" % ", ".join("%s: %s" % (f, n) for f, n in zip(ERRORS[v], names)) if ERRORS[v] else "")


def verify_error_text(cx, v):
    """the text names the variant and shows each of its numbers, by name"""
    if not cx.problems():
        return
    toks = cx.e.get("tokens", [])
    for p in cx.e["parts"]:
        cs = chars(p["log"])
        t = plain(cs)
        cx.st.add("texts read")
        if cx.satisfiable(p["g"]) is None:
            continue
        if v not in t:
            cx.find("text", "the text of %s is %r, which does not name it" % (v, t))
            continue
        pairs, free = [], [i for i, c in enumerate(cs) if isinstance(c, tuple)]
        for i, f in enumerate(ERRORS[v]):
            # the number printed next after the field's name
            at = t.find(f + ":")
            nxt = [j for j in free if j > at]
            if at < 0 or not nxt or cs[nxt[0]][0] != "t" or t[at + len(f) + 1:nxt[0]].strip():
                if free and cs[free[0]][0] == "s":
                    cx.st.add("paths left open")
                    cx.st.setdefault("open", []).append("%s: the digits of %s" % (cx.where, f))
                else:
                    cx.find("text", "the text of %s is %r, which does not show %s" % (v, t, f))
                continue
            tok = toks[cs[nxt[0]][1]]
            pairs += [("%s, bit %d" % (f, k), b, ("l", "ab"[i], k)) for k, b in enumerate(T.int_bits(tok["v"])[2])]
        cx.same(p["g"], pairs, "text", "the text of " + v)


def c29(run):
    s = Sheet(HEAD, 2)
    for v, fs in ERRORS.items():
        sig = "(%s) -> core::fmt::Result" % ", ".join("%s: usize" % x for x in "ab"[:len(fs)])
        e = build_error(v, "ab")
        for f, nm in (("{}", "disp"), ("{:?}", "debug")):
            s.add("%s_%s" % (v, nm), sig, 'let mut s = Sink; let e = %s; write!(s, "%s", e)' % (e, f), verify_error_text, (v,))
        s.add(v + "_std", sig, 'let mut s = Sink; let e: Box<dyn std::error::Error> = Box::new(%s); write!(s, "{}", e)' % e, verify_error_text, (v,))
        for v2, fs2 in ERRORS.items():
            sig = ", ".join("%s: usize" % x for x in "ab"[:len(fs)] + "cd"[:len(fs2)])
            same = " && ".join("%s == %s" % xy for xy in zip("ab"[:len(fs)], "cd")) or "true"
            s.add("%s_%s_eq" % (v, v2), "(%s) -> bool" % sig, "let (x, y) = (%s, %s); (x == y) == (%s) && (x != y) != (x == y) && x.clone() == x" % (build_error(v, "ab"), build_error(v2, "cd"), same if v == v2 else "false"),
                  verify_true, ("equality of %s and %s" % (v, v2),))
            s.add("%s_%s_desc" % (v, v2), "(%s) -> bool" % sig, "#[allow(deprecated)] { use std::error::Error; let (x, y) = (%s, %s); !x.description().is_empty() && (x.description() == y.description()) == %s }"
                  % (build_error(v, "ab"), build_error(v2, "cd"), "true" if v == v2 else "false"), verify_true, ("descriptions of %s and %s are there and tell them apart" % (v, v2),))
        s.add(v + "_fmt", "(%s) -> bool" % ", ".join("%s: usize" % x for x in "ab"[:len(fs)]), "let r: core::fmt::Error = %s.into(); r == core::fmt::Error" % e, verify_true, ("turning %s into a formatting error" % v,))
    n, _ = s.run(run, "errors")
    run.samples.append({"error": "BufferSizeMismatch { expected, actual }", "rules": ["Display", "Debug", "Error::description", "==", "into fmt::Error"]})
    run.require("error value functions analysed", n, 240)
    return run.finish("proof", "Every variant with any numbers in it (128 bits of input): its text names it and shows each number behind its name, its description is not empty and no other variant has the same, two errors are equal exactly when variant and numbers are, "
                      "and turning it into a formatting error gives one.", {"functions": n})


# ---- byte arrays ----
def verify_out(cx, what, exp, arg):
    """entry writes exactly these bits to the array behind its argument"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        bits = V.out_bytes(p, arg)
        bits = bits and V.byte_bits({"a": bits}) if bits and isinstance(bits[0], dict) else bits
        if bits is None or len(bits) != len(exp):
            cx.find("size", "%s writes %s bits instead of %d" % (what, bits and len(bits), len(exp)))
            continue
        cx.same(p["g"], [("bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, exp))], "bits", what)


def byte(path):
    return [("l", path, 7 - i) for i in range(8)]


def c30(run):
    s = Sheet("use packed_struct::prelude::*;\nuse packed_struct::types::bits::*;\n", 4)
    SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]
    for n in SIZES:
        t = "[u8; %d]" % n
        ident = [b for i in range(n) for b in byte("a[%d]" % i)]
        s.add("new%d" % n, "(v: u8) -> " + t, "<%s as ByteArray>::new(v)" % t, verify_bytes, ("%s of one value" % t, byte("v") * n))
        s.add("len%d" % n, "() -> (usize, usize, usize)", "let mut a = <%s as ByteArray>::new(7); (<%s as ByteArray>::len(), ByteArray::as_bytes_slice(&a).len(), ByteArray::as_mut_bytes_slice(&mut a).len())" % (t, t),
              V.verify_consts, (t, [n, n, n], ["ByteArray::len", "length of as_bytes_slice", "length of as_mut_bytes_slice"]))
        s.add("slice%d" % n, "(a: &%s) -> %s" % (t, t), "let s = ByteArray::as_bytes_slice(a); let mut o = [0u8; %d]; let mut i = 0; while i < %d { o[i] = s[i]; i += 1; } o" % (n, n), verify_bytes, ("the slice of " + t, ident))
        s.add("mut%d" % n, "(a: &%s, b: &%s) -> %s" % (t, t, t), "let mut o = *b; { let s = ByteArray::as_mut_bytes_slice(&mut o); let mut i = 0; while i < %d { s[i] = a[i]; i += 1; } } o" % n, verify_bytes, ("writing through the slice of " + t, ident))
        for k in sorted({0, 1, 2, 3, n // 2, n - 2, n - 1}):
            if 0 <= k < n:
                s.add("rot%d_%d" % (n, k), "(a: &%s) -> %s" % (t, t), "let mut o = *a; ByteArray::rotate_right(&mut o, %d); o" % k, verify_bytes, ("%s moved right by %d" % (t, k), [("c", 0)] * (8 * k) + ident[:8 * (n - k)]))
    n, _ = s.run(run, "arrays")
    run.samples.append({"type": "[u8; 5]", "functions": ["new", "len", "as_bytes_slice", "as_mut_bytes_slice", "rotate_right"]})
    run.require("byte array functions analysed", n, 120)
    return run.finish("translation_validation", "%d sizes, every content at once, every bit compared." % len(SIZES), {"functions": n})


CHECKS = {"C28": c28, "C29": c29, "C30": c30}
