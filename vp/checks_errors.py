"""Errors of members reach the caller unchanged (C24)."""
import random
from . import corpus as C, model as M, verify as V, terms as T
from .model import *
from .checks_lib import Sheet
from .checks_struct import lsb, unpack_bits, wrap_bits, unwrap_bits
from .verify import result, err_name, value_pairs

# what member type number k fails with: the variant, the field that carries the member's number, the constant in the other field
KINDS = [("InvalidValue", None, None), ("BitsError", None, None), ("BufferTooSmall", None, None), ("NotImplemented", None, None), ("InstanceRequiredForSize", None, None), ("MoreThanOneDynamicType", None, None),
         ("BufferSizeMismatch", "actual", ("expected", 1006)), ("BufferModMismatch", "actual_size", ("modulo_required", 1007)), ("SliceIndexingError", "slice_len", None), ("InternalError", None, None),
         ("BufferSizeMismatch", "expected", ("actual", 1010)), ("BufferModMismatch", "modulo_required", ("actual_size", 1011))]
LIMIT = 200


def error_text(k):
    v, f, c = KINDS[k]
    if not f:
        return "PackingError::" + v
    return "PackingError::%s { %s: n as usize%s }" % (v, f, ", %s: %d" % c if c else "")


def member_decl(k):
    return """#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P{k} {{ pub v: u8 }}
fn bad{k}(n: u8) -> PackingError {{ {err} }}
impl PackedStruct for P{k} {{
    type ByteArray = [u8; 1];
    fn pack(&self) -> PackingResult<[u8; 1]> {{ if self.v < {lim} {{ Ok([self.v]) }} else {{ Err(bad{k}(self.v)) }} }}
    fn unpack(b: &[u8; 1]) -> PackingResult<P{k}> {{ if b[0] < {lim} {{ Ok(P{k} {{ v: b[0] }}) }} else {{ Err(bad{k}(b[0])) }} }}
}}
// a member without a fixed size
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D{k} {{ pub v: u8 }}
impl PackedStructSlice for D{k} {{
    fn pack_to_slice(&self, o: &mut [u8]) -> PackingResult<()> {{ if self.v < {lim} {{ o[0] = self.v; o[1] = self.v; Ok(()) }} else {{ Err(bad{k}(self.v)) }} }}
    fn unpack_from_slice(b: &[u8]) -> PackingResult<D{k}> {{ if b[0] < {lim} {{ Ok(D{k} {{ v: b[0] }}) }} else {{ Err(bad{k}(b[0])) }} }}
    fn packed_bytes_size(x: Option<&Self>) -> PackingResult<usize> {{ if x.is_some() {{ Ok(2) }} else {{ Err(PackingError::InstanceRequiredForSize) }} }}
}}
// a member whose size cannot be asked for without a value, nor with one from 200
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Y{k} {{ pub v: u8 }}
impl PackedStructSlice for Y{k} {{
    fn pack_to_slice(&self, o: &mut [u8]) -> PackingResult<()> {{ o[0] = self.v; Ok(()) }}
    fn unpack_from_slice(b: &[u8]) -> PackingResult<Y{k}> {{ Ok(Y{k} {{ v: b[0] }}) }}
    fn packed_bytes_size(x: Option<&Self>) -> PackingResult<usize> {{ match x {{ Some(x) if x.v >= {lim} => Err(bad{k}(x.v)), Some(_) => Ok(1), None => Err(bad{k}(77)) }} }}
}}
// a member whose size query fails
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Z{k} {{ pub v: u8 }}
impl PackedStructSlice for Z{k} {{
    fn pack_to_slice(&self, o: &mut [u8]) -> PackingResult<()> {{ o[0] = self.v; Ok(()) }}
    fn unpack_from_slice(b: &[u8]) -> PackingResult<Z{k}> {{ Ok(Z{k} {{ v: b[0] }}) }}
    fn packed_bytes_size(x: Option<&Self>) -> PackingResult<usize> {{ match x {{ Some(x) if x.v >= {lim} => Err(bad{k}(x.v)), _ => Ok(1) }} }}
}}
""".format(k=k, err=error_text(k), lim=LIMIT)


def integer_decl(k, nat, w):
    """an integer type of the user's whose conversions fail"""
    by = ceil8(w)
    low = {"to_msb": "self.v", "to_lsb": "self.v", "from_msb": "b[%d]" % (by - 1), "from_lsb": "b[0]"}
    fns = []
    for o in ("msb", "lsb"):
        out = "[" + ", ".join(["self.v"] + ["0"] * (by - 1) if o == "lsb" else ["0"] * (by - 1) + ["self.v"]) + "]"
        fns.append("    fn to_%s_bytes(&self) -> PackingResult<[u8; %d]> { if self.v < %d { Ok(%s) } else { Err(bad%d(self.v)) } }" % (o, by, LIMIT, out, k))
        fns.append("    fn from_%s_bytes(b: &[u8; %d]) -> PackingResult<Self> { if %s < %d { Ok(I%d_%d { v: %s }) } else { Err(bad%d(%s)) } }" % (o, by, low["from_" + o], LIMIT, k, w, low["from_" + o], k, low["from_" + o]))
    return """#[derive(Clone, Copy, Debug, PartialEq)]
pub struct I%d_%d { pub v: u8 }
impl SizedInteger<%s, packed_bits::Bits::<%d>> for I%d_%d {
    fn value_bit_mask() -> %s { 0 }
    fn from_primitive(v: %s) -> Self { I%d_%d { v: v as u8 } }
    fn to_primitive(&self) -> %s { self.v as %s }
%s
}
""" % (k, w, nat, w, k, w, nat, nat, k, w, nat, nat, "\n".join(fns))


INTS = [("u8", 8), ("u16", 12), ("u16", 16), ("u32", 21), ("u32", 24)]
DECLS = M.HEADER + "".join(member_decl(k) + "".join(integer_decl(k, nat, w) for nat, w in INTS) for k in range(len(KINDS)))


class P(Elem):
    """a member type that fails for the numbers from 200"""

    def __init__(self, k):
        self.k = k
        self.rust = "P%d" % k

    def pack(self, path, w, endian):
        return [("l", path + ".v", 7 - i) for i in range(8)]

    def unpack(self, bits, w, endian):
        return ("struct", self.rust, {"v": ("int", bits[::-1])}), [(self.rust, bits[::-1], [(0, LIMIT - 1)])]

    def rt(self, path, w):
        return ("struct", self.rust, {"v": ("int", lsb(path + ".v", 8))})


def members(S, path=None, bits=None, at=""):
    """[(label, kind or None for a built-in check, bits of the number, valid numbers)] of a structure at a path or of packed bits"""
    out = []
    for f in S.fields:
        for suf, el, s, w in f.elems():
            lab = at + f.path_name + suf
            sub = None if bits is None else bits[s:s + w]
            p = None if path is None else path + "." + f.path_name + suf
            if isinstance(el, P):
                out.append((lab, el.k, lsb(p + ".v", 8) if bits is None else sub[::-1], [(0, LIMIT - 1)]))
            elif isinstance(el, Nest):
                out += members(el.S, p, sub, lab + ".")
            elif bits is not None:
                for c in el.unpack(sub, w, S.field_endian(f, w))[1]:
                    out.append((lab, 0, c[-2], c[-1]))
    return out


def judge_error(cx, g, v, ms, what):
    """the error v must be the one of a failing member"""
    n = err_name(v)
    if n is None:
        cx.st.add("paths left open")
        cx.st.setdefault("open", []).append("%s: the error is not a single variant" % cx.where)
        return
    same = [m for m in ms if KINDS[m[1]][0] == n]
    if not same:
        if cx.satisfiable(g, {x for m in ms for b in m[2] for x in esup(b)}) is not None:
            cx.find("replaced-error", "%s fails with %s, which no member fails with, when %s" % (what, n, T.show_guard(cx.t, g)))
        return
    fld = v["f"] if isinstance(v.get("f"), dict) else {}
    left, other = [], None
    for m in same:
        _, pf, const = KINDS[m[1]]
        if pf:
            b = T.int_bits(fld[pf])[2]
            want = [cx.t.leaf_b(x[1], x[2]) if x[0] == "l" else None for x in m[2]]
            if any(x is None or x != y for x, y in zip(want, b)) or any(b[8:]):
                other = "it carries another number in %s" % pf
                continue
            if const and V.const_of(fld[const[0]]) != const[1]:
                other = "its %s is %s" % (const[0], V.const_of(fld[const[0]]))
                continue
        left.append(m)
    if not left:
        # a number that is no member's as it stands: compared on samples
        leaves = {x for m in ms for b in m[2] for x in esup(b)}
        L, mk = T.sample(cx.t, g, leaves, 384, cx.dedup(cx.con_extra([m[:1] + m[2:] for m in same], cx.rnd)), cx.rnd)
        bad = mk
        for m in same:
            _, pf, const = KINDS[m[1]]
            ok = L.full & ~cx.valid_lanes(L, [(m[0], m[2], m[3])])
            for i, a in enumerate(T.int_bits(fld[pf])[2] if pf else []):
                ok &= ~(L.ev(a) ^ (ev(L, m[2][i]) if i < 8 else 0))
            for i, a in enumerate(T.int_bits(fld[const[0]])[2] if const else []):
                ok &= ~(L.ev(a) ^ (L.full if const[1] >> i & 1 else 0))
            bad &= ~ok
        if bad & L.full:
            k = (bad & L.full).bit_length() - 1
            cx.find("replaced-error", "%s fails with %s, but not the one of a failing member: %s (input %s)" % (what, n, other, cx.show(L, k, sorted(leaves))))
        else:
            cx.st.add("errors compared on samples only")
        return
    r, wit = cx.entails(g, [(m[0], m[2], m[3]) for m in left], False)
    if r is False:
        cx.find("replaced-error", "%s fails with %s although %s do%s not fail (input %s)" % (what, n, ", ".join(m[0] for m in left)[:80], "es" if len(left) == 1 else "", wit))
        return
    cx.st.add("failing partitions proved to carry a failing member's error" if r else "failing partitions sampled")


def verify_errors(cx, what, ms, good, kind):
    """entry returns PackingResult of a value (kind "value"), bytes ("bytes"), a vector ("vec"), unit with an output buffer ("out"), a number ("size")"""
    if not cx.problems():
        return
    cons = [(m[0], m[2], m[3]) for m in ms]
    oks = errs = 0
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is None:
            cx.find("value", "%s gives %s" % (what, str(v)[:60]))
            continue
        if not ok:
            errs += 1
            judge_error(cx, p["g"], v, ms, what)
            continue
        r, wit = cx.entails(p["g"], cons, True)
        if r is False:
            cx.find("swallowed-error", "%s succeeds although a member fails (input %s)" % (what, wit))
            continue
        oks += 1
        cx.st.add("succeeding partitions proved to have no failing member" if r else "succeeding partitions sampled")
        if kind == "value":
            pairs = []
            value_pairs(cx, what, good, v, pairs)
            cx.same(p["g"], pairs, "value", what)
        elif kind in ("bytes", "vec", "out"):
            bits = V.byte_bits(v) if kind == "bytes" else [b[7 - k] for b in (V.out_bytes(p, "o") or []) for k in range(8)] if kind == "out" else None
            if kind == "vec":
                bits = V.byte_bits({"a": v["vec"]}) if isinstance(v, dict) and "vec" in v else None
            if bits is None or len(bits) != len(good):
                cx.find("size", "%s gives %s bits instead of %d" % (what, bits and len(bits), len(good)))
                continue
            cx.same(p["g"], [("bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, good))], "bits", what)
        elif kind == "size":
            if V.const_of(v) != good:
                cx.find("size", "%s gives %s instead of %d" % (what, V.const_of(v), good))
    if not cx.fs and not cx.e["terms"]:
        if not oks:
            cx.find("missing", "%s never succeeds" % what)
        if ms and not errs:
            cx.find("swallowed-error", "%s never fails although members do" % what)


def verify_own(cx, what, k):
    """every outcome is the error of kind k with the number 77"""
    if not cx.problems():
        return
    v, pf, const = KINDS[k]
    want = dict(([(pf, 77)] if pf else []) + ([const] if const else []))
    for p in cx.e["parts"]:
        ok, e = result(p["ret"])
        if cx.satisfiable(p["g"]) is None:
            continue
        if ok:
            cx.find("swallowed-error", "%s succeeds although the size of a member cannot be told (%s)" % (what, v))
        elif err_name(e) != v:
            cx.find("replaced-error", "%s fails with %s where a member fails with %s" % (what, err_name(e), v))
        else:
            f = {a: V.const_of(b) for a, b in (e.get("f") or {}).items()} if isinstance(e.get("f"), dict) else {}
            if {a: b for a, b in f.items() if a in want} != want:
                cx.find("replaced-error", "%s fails with %s of %s instead of %s" % (what, v, f, want))


def verify_display(cx, what, ms, fields_only):
    """entry returns fmt::Result; with a failing member the text must not show data"""
    if not cx.problems():
        return
    cons = [(m[0], m[2], m[3]) for m in ms]
    names = {KINDS[m[1]][0] for m in ms}
    seen = 0
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        log = p.get("log") or p.get("text") or ""
        text = log if isinstance(log, str) else "".join(chr(b["n"]) if "n" in b else "\0" for b in log["symstr"])
        r, wit = cx.entails(p["g"], cons, True)
        if r is None:
            cx.st.add("paths left open")
            cx.st.setdefault("open", []).append("%s: whether a member fails was not decided" % cx.where)
            continue
        if r is not False:
            # no member fails
            if not ok:
                cx.find("rejects-valid", "%s fails although no member does" % what)
            elif not text:
                cx.find("missing", "%s prints nothing" % what)
            continue
        r, wit = cx.entails(p["g"], cons, False)
        if r is False:
            cx.st.add("paths left open")
            cx.st.setdefault("open", []).append("%s: printing does not depend on whether packing fails" % cx.where)
            L = cx.satisfiable(p["g"], {x for m in ms for b in m[2] for x in esup(b)})
            if L is not None and ok and not any(n in text for n in names):
                cx.find("printed-data", "%s prints %r whether or not a member fails (input %s)" % (what, text[:60], wit))
            continue
        seen += 1
        data = [w for w in ("Decimal", "Hex", "Binary", " byte", "| bits", "[") if w in text]
        if data:
            cx.find("printed-data", "%s prints %r although a member fails" % (what, text[:100]))
        elif ok and (fields_only or not any(n in text for n in names)):
            cx.find("swallowed-error", "%s succeeds with %r although a member fails" % (what, text[:100]))
    if not seen and not cx.fs and not cx.e["terms"]:
        cx.find("missing", "%s: no path with a failing member was found" % what)


def structures(run):
    """structures with failing members at every kind of place"""
    out = []
    rnd = random.Random(run.seed * 31 + 24)
    en = next(e for e in (C.enums().values() if isinstance(C.enums(), dict) else C.enums()) if 2 <= len(e.variants) <= 5 and e.pw == 8 and 3 <= e.min_width() <= 6)

    def S(fields, **kw):
        kw.setdefault("endian", ("msb", "lsb")[len(out) % 2])
        out.append(Struct("Er%d" % len(out), fields, **kw))
        return out[-1]
    n = len(KINDS)
    # one failing member among others, every position, aligned or not, both numberings
    for k in range(n):
        for off in (0, 3, 8 + k % 5):
            fs = ([Field("pre", Int("u8"), 0, min(off, 8))] if off else []) + [Field("p", P(k), off, 8), Field("post", Int("u16"), off + 8, 13)]
            if k % 2:
                fs.reverse()
            S(fs, numbering=("msb0", "lsb0")[(k + off) % 2], size=(off + 28) // 8)
    # several failing members
    for m in range(2, 6):
        for off in (0, 5):
            S([Field("p%d" % i, P((3 * m + 5 * i + off) % n), off + 8 * i, 8) for i in range(m)] + ([Field("x", Int("u8"), 0, off)] if off else []))
    # arrays
    for k in range(n):
        c = 1 + k % 4
        S([Field("arr", P(k), 2 * (k % 3), 8 * c, count=c), Field("t", Bool(), 2 * (k % 3) + 8 * c, 1)], size=c + 2)
    # nesting, up to four levels, and arrays of it
    base = [out[0], out[7], out[len(out) - n + 2]]
    level = base
    for d in range(4):
        nxt = []
        for i, s in enumerate(level):
            w = 8 * s.num_bytes
            fs = [Field("a", P((d * 4 + i) % n), 0, 8), Field("in_", Nest(s), 8 + i, w), Field("z", Int("u8"), 8 + i + w, 7)]
            if (d + i) % 2:
                fs.reverse()
            nxt.append(S(fs))
        level = nxt
    for i, s in enumerate(base):
        w = 8 * s.num_bytes
        c = S([Field("cells", Nest(s), i, 3 * w, count=3), Field("z", P(9 - i), i + 3 * w, 8)])
        S([Field("grid", Nest(c), 0, 16 * c.num_bytes, count=2)])
    # with members that check their own bits
    S([Field("b", Bool(), 0, 1), Field("p", P(5), 1, 8), Field("e", En(en), 9, en.min_width()), Field("q", P(8), 24, 8)])
    S([Field("e", En(en), 0, 8), Field("p", P(9), 8, 8), Field("f", En(en), 16, 2 * en.min_width(), count=2)], size=6)
    # mixed
    pool = [s for s in out if s.num_bytes <= 4]
    for i in range(120 if run.thorough else 24):
        fs, at = [], 0
        for j in range(rnd.randrange(2, 6)):
            at += rnd.choice([0, 0, 1, 3])
            el = rnd.choice([P(rnd.randrange(n)), P(rnd.randrange(n)), Int("u8"), Int("i16"), IntN("u16", 11), Nest(rnd.choice(pool)), Res(True, 5)])
            w = 8 if isinstance(el, P) else 8 * el.S.num_bytes if isinstance(el, Nest) else {"u8": 8, "i16": rnd.randrange(9, 17)}.get(el.rust, getattr(el, "bits", 5))
            c = rnd.choice([None, None, 2]) if isinstance(el, (P, Nest)) else None
            fs.append(Field("f%d" % j, el, at, w * (c or 1), count=c))
            at += w * (c or 1)
        if at > 200:
            continue
        if not any(isinstance(f.elem, P) for f in fs):
            fs.append(Field("last", P(i % n), at, 8))
        rnd.shuffle(fs)
        S(fs, endian=rnd.choice(["msb", "lsb"]))
    return out


def c24(run):
    ss = structures(run)
    decls, done = [], set()
    for s in ss:
        for x in s.nested() + [s]:
            if x.name not in done:
                done.add(x.name)
                decls.append(x.decl())
    sh = Sheet(DECLS + SINK + "\n".join(decls), 12)
    for s in ss:
        N, t = s.num_bytes, s.name
        pm, bits = members(s, "x"), s.expect_pack("x")
        ub = unpack_bits(s)
        um = members(s, None, ub)
        val = s.expect_unpack(ub)[0]
        sh.add(t + "_p", "(x: &%s) -> PackingResult<[u8; %d]>" % (t, N), "x.pack()", verify_errors, ("packing " + t, pm, bits, "bytes"))
        sh.add(t + "_u", "(b: &[u8; %d]) -> PackingResult<%s>" % (N, t), "<%s as PackedStruct>::unpack(b)" % t, verify_errors, ("unpacking " + t, um, val, "value"))
        sh.add(t + "_s", "(x: &%s, o: &mut [u8; %d]) -> PackingResult<()>" % (t, N), "x.pack_to_slice(&mut o[..])", verify_errors, ("packing %s into a slice" % t, pm, bits, "out"))
        sh.add(t + "_v", "(x: &%s) -> PackingResult<Vec<u8>>" % t, "x.pack_to_vec()", verify_errors, ("packing %s into a vector" % t, pm, bits, "vec"))
        sh.add(t + "_n", "(b: &[u8; %d]) -> PackingResult<%s>" % (N, t), "<%s as PackedStructSlice>::unpack_from_slice(&b[..])" % t, verify_errors, ("unpacking %s from a slice" % t, um, val, "value"))
        if len(pm) <= 6 and N <= 8:
            sh.add(t + "_d", "(x: &%s) -> core::fmt::Result" % t, "let mut s = Sink; write!(s, \"{}\", x)", verify_display, ("displaying " + t, pm, False))
            sh.add(t + "_f", "(x: &%s) -> core::fmt::Result" % t, "let mut s = Sink; write!(s, \"{}\", Fields(x))", verify_display, ("formatting the fields of " + t, pm, True))
    structs = sh.n
    wrappers(sh)
    containers(run, sh, ss)
    n, _ = sh.run(run, "err")
    run.stats.add("structures with failing members", len(ss))
    run.require("functions with failing members analysed", n, 700)
    run.require("of them on structures", structs, 500)
    run.samples.append({"declaration": ss[30].decl(), "member": member_decl(6)})
    return run.finish("translation_validation", "Member types that fail for the numbers from 200 with each variant of the error (payloads carry the member's number) are placed in structures, arrays, nested structures to five levels, tuples and vectors. Packing, unpacking (arrays, slices, vectors) and "
                      "size queries are interpreted over all inputs: success implies that no member fails, with the right bits; failure carries variant and payload of a member that fails for that input. Display prints no data and names the error; the field formatter fails.",
                      {"programs": n, "disagreements_checked": n})


SINK = """use core::fmt::Write;
use packed_struct::PackingResult;
pub fn vp_sink(_b: &[u8]) {}
pub fn vp_fmt_str(f: &mut core::fmt::Formatter, s: &str) -> core::fmt::Result { f.write_str(s) }
pub fn vp_to_string<T: core::fmt::Display>(x: &T) -> String { format!("{}", x) }
pub struct Sink;
impl core::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> core::fmt::Result { vp_sink(s.as_bytes()); Ok(()) } }
pub struct Fields<'a, T>(&'a T);
impl<'a, T: packed_struct::debug_fmt::PackedStructDebug> core::fmt::Display for Fields<'a, T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { self.0.fmt_fields(f) } }
"""


def wrappers(sh):
    """byte order wrappers around integers that fail"""
    for k in range(len(KINDS)):
        for nat, w in INTS:
            I, by = "I%d_%d" % (k, w), ceil8(w)
            for o, e in (("M", "msb"), ("L", "lsb")):
                t = "%ssbInteger<%s, packed_bits::Bits::<%d>, %s>" % (o, nat, w, I)
                ub = [("l", "b[%d]" % (i // 8), 7 - i % 8) for i in range(8 * by)]
                v = unwrap_bits(ub, w, e)[:8]
                nm = "w%d_%d_%s" % (k, w, e)
                what = "%ssbInteger of %d bits" % (o, w)
                sh.add(nm + "_p", "(x: %s) -> PackingResult<[u8; %d]>" % (I, by), "<%s>::from(x).pack()" % t, verify_errors,
                       ("packing " + what, [("the integer", k, lsb("x.v", 8), [(0, LIMIT - 1)])], wrap_bits(lsb("x.v", 8) + [C0] * (w - 8), w, e), "bytes"))
                sh.add(nm + "_u", "(b: &[u8; %d]) -> PackingResult<%s>" % (by, I), "Ok(*<%s as PackedStruct>::unpack(b)?)" % t, verify_errors,
                       ("unpacking " + what, [("the integer", k, v, [(0, LIMIT - 1)])], ("struct", I, {"v": ("int", v)}), "value"))


def containers(run, sh, ss):
    """tuples and vectors with failing members"""
    SL = "<%s as PackedStructSlice>"
    n = len(KINDS)

    def mem(k, path):
        return ("member " + path, k, lsb(path + ".v", 8), [(0, LIMIT - 1)])

    def byte(arg, i):
        return lsb("%s[%d]" % (arg, i), 8)

    def umem(k, i):
        return ("byte %d" % i, k, byte("b", i), [(0, LIMIT - 1)])

    def val(ty, i):
        return ("struct", ty, {"v": ("int", byte("b", i))})
    # tuples: one failing member at every position of every arity, and all of them
    for ar in range(1, 11):
        for pos in list(range(ar)) + [None]:
            ks = {i: (ar + 3 * i + (pos or 0)) % n for i in range(ar) if pos is None or i == pos}
            tys = ["P%d" % ks[i] if i in ks else "u8" for i in range(ar)]
            t = "(%s,)" % ", ".join(tys)
            nm = "tu%d_%s" % (ar, "all" if pos is None else pos)
            pm = [mem(ks[i], "x.%d" % i) for i in ks]
            bits = [b for i in range(ar) for b in lsb("x.%d%s" % (i, ".v" if i in ks else ""), 8)[::-1]]
            um = [umem(ks[i], i) for i in ks]
            v = ("tuple", [val(tys[i], i) if i in ks else ("int", byte("b", i)) for i in range(ar)])
            sh.add(nm + "_v", "(x: &%s) -> PackingResult<Vec<u8>>" % t, "x.pack_to_vec()", verify_errors, ("packing " + t, pm, bits, "vec"))
            sh.add(nm + "_s", "(x: &%s, o: &mut [u8; %d]) -> PackingResult<()>" % (t, ar), "x.pack_to_slice(&mut o[..])", verify_errors, ("packing %s into a slice" % t, pm, bits, "out"))
            sh.add(nm + "_u", "(b: &[u8; %d]) -> PackingResult<%s>" % (ar, t), SL % t + "::unpack_from_slice(&b[..])", verify_errors, ("unpacking " + t, um, v, "value"))
            # the member's size query fails
            if pos is not None:
                k = ks[pos]
                zt = "(%s,)" % ", ".join("Z%d" % k if i == pos else "u8" for i in range(ar))
                zm = [mem(k, "x.%d" % pos)]
                sh.add(nm + "_zn", "(x: &%s) -> PackingResult<usize>" % zt, SL % zt + "::packed_bytes_size(Some(x))", verify_errors, ("the size of " + zt, zm, ar, "size"))
                if KINDS[k][0] != "InstanceRequiredForSize":
                    sh.add(nm + "_zv", "(x: &%s) -> PackingResult<Vec<u8>>" % zt, "x.pack_to_vec()", verify_errors, ("packing " + zt, zm, [b for i in range(ar) for b in lsb("x.%d%s" % (i, ".v" if i == pos else ""), 8)[::-1]], "vec"))
                    sh.add(nm + "_zs", "(x: &%s, o: &mut [u8; %d]) -> PackingResult<()>" % (zt, ar), "x.pack_to_slice(&mut o[..])", verify_errors, ("packing %s into a slice" % zt, zm, [b for i in range(ar) for b in lsb("x.%d%s" % (i, ".v" if i == pos else ""), 8)[::-1]], "out"))
                # a member without a fixed size
                dt = "(%s,)" % ", ".join("D%d" % k if i == pos else "u8" for i in range(ar))
                db = [b for i in range(ar) for _ in range(2 if i == pos else 1) for b in lsb("x.%d%s" % (i, ".v" if i == pos else ""), 8)[::-1]]
                sh.add(nm + "_dv", "(x: &%s) -> PackingResult<Vec<u8>>" % dt, "x.pack_to_vec()", verify_errors, ("packing " + dt, zm, db, "vec"))
                at = [i + (1 if i > pos else 0) for i in range(ar)]
                sh.add(nm + "_du", "(b: &[u8; %d]) -> PackingResult<%s>" % (ar + 1, dt), SL % dt + "::unpack_from_slice(&b[..])", verify_errors,
                       ("unpacking " + dt, [umem(k, pos)], ("tuple", [val("D%d" % k, pos) if i == pos else ("int", byte("b", at[i])) for i in range(ar)]), "value"))
    # the size query without a value fails: unpacking a tuple, and everything a vector does
    for k in range(n):
        for ar in range(1, 11):
            for pos in range(ar) if run.thorough else sorted({0, ar - 1, (k + ar) % ar, ar // 2}):
                t = "(%s,)" % ", ".join("Y%d" % k if i == pos else ("u8", "[u8; 2]", "P3")[(i + k) % 3] for i in range(ar))
                nm = "y%d_%d_%d" % (k, ar, pos)
                sh.add(nm + "_s", "() -> PackingResult<usize>", SL % t + "::packed_bytes_size(None)", verify_own, ("the size of " + t, k))
                if KINDS[k][0] == "InstanceRequiredForSize":
                    continue
                if pos == 0:
                    sh.add(nm + "_u", "(b: &[u8]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(b)", verify_own, ("unpacking " + t, k))
                else:
                    sh.add(nm + "_f", "(b: &[u8; %d]) -> PackingResult<%s>" % (ar, t), SL % t + "::unpack_from_slice(&b[..])", verify_own, ("unpacking " + t, k))
        t = "Vec<Y%d>" % k
        sh.add("yv%d_u" % k, "(b: &[u8]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(b)", verify_own, ("unpacking " + t, k))
        sh.add("yv%d_f" % k, "(b: &[u8; 3]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(&b[..])", verify_own, ("unpacking " + t, k))
        for cnt in (1, 2, 3):
            args = ", ".join("x%d: Y%d" % (i, k) for i in range(cnt))
            mk = "let v: %s = { let mut v = Vec::new(); %s v }; " % (t, " ".join("v.push(x%d);" % i for i in range(cnt)))
            sh.add("yv%d_%d_v" % (k, cnt), "(%s) -> PackingResult<Vec<u8>>" % args, mk + "v.pack_to_vec()", verify_own, ("packing %d items of %s" % (cnt, t), k))
            sh.add("yv%d_%d_s" % (k, cnt), "(%s, o: &mut [u8; %d]) -> PackingResult<()>" % (args, cnt), mk + "v.pack_to_slice(&mut o[..])", verify_own, ("packing %d items of %s" % (cnt, t), k))
            sh.add("yv%d_%d_n" % (k, cnt), "(%s) -> PackingResult<usize>" % args, mk + SL % t + "::packed_bytes_size(Some(&v))", verify_own, ("the size of %d items of %s" % (cnt, t), k))
        j = (k + 5) % n
        if KINDS[k][0] != "InstanceRequiredForSize":
            for i, t in enumerate(["(u8, (Y%d, u8))" % k, "((u8, u8), (u8, (u8, Y%d)))" % k, "Vec<(u8, Y%d)>" % k, "Vec<((Y%d,), u8)>" % k, "(Vec<u8>, Y%d)" % k, "(u8, Y%d, Vec<P%d>)" % (k, j)]):
                sh.add("yn%d_%d" % (k, i), "(b: &[u8]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(b)", verify_own, ("unpacking " + t, k))
    # vectors
    for k in range(n):
        for cnt in (1, 2, 4):
            args = ", ".join("x%d: P%d" % (i, k) for i in range(cnt))
            mk = "{ let mut v = Vec::new(); %s v }" % " ".join("v.push(x%d);" % i for i in range(cnt))
            pm = [mem(k, "x%d" % i) for i in range(cnt)]
            bits = [b for i in range(cnt) for b in lsb("x%d.v" % i, 8)[::-1]]
            nm = "ve%d_%d" % (k, cnt)
            sh.add(nm + "_v", "(%s) -> PackingResult<Vec<u8>>" % args, "let v: Vec<P%d> = %s; v.pack_to_vec()" % (k, mk), verify_errors, ("packing %d P%d" % (cnt, k), pm, bits, "vec"))
            sh.add(nm + "_s", "(%s, o: &mut [u8; %d]) -> PackingResult<()>" % (args, cnt), "let v: Vec<P%d> = %s; v.pack_to_slice(&mut o[..])" % (k, mk), verify_errors, ("packing %d P%d into a slice" % (cnt, k), pm, bits, "out"))
            sh.add(nm + "_u", "(b: &[u8; %d]) -> PackingResult<Vec<P%d>>" % (cnt, k), "<Vec<P%d> as PackedStructSlice>::unpack_from_slice(&b[..])" % k, verify_errors,
                   ("unpacking %d P%d" % (cnt, k), [umem(k, i) for i in range(cnt)], ("vec", [val("P%d" % k, i) for i in range(cnt)]), "value"))
        # a vector in a tuple, a tuple in a tuple, a tuple in a vector
        j = (k + 3) % n
        t = "(P%d, Vec<P%d>, u8)" % (j, k)
        sh.add("tv%d_u" % k, "(b: &[u8; 4]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(&b[..])", verify_errors,
               ("unpacking " + t, [umem(j, 0), umem(k, 1), umem(k, 2)], ("tuple", [val("P%d" % j, 0), ("vec", [val("P%d" % k, 1), val("P%d" % k, 2)]), ("int", byte("b", 3))]), "value"))
        t = "(u8, (P%d, P%d), P%d)" % (k, j, j)
        sh.add("tt%d_u" % k, "(b: &[u8; 4]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(&b[..])", verify_errors,
               ("unpacking " + t, [umem(k, 1), umem(j, 2), umem(j, 3)], ("tuple", [("int", byte("b", 0)), ("tuple", [val("P%d" % k, 1), val("P%d" % j, 2)]), val("P%d" % j, 3)]), "value"))
        sh.add("tt%d_v" % k, "(x: &%s) -> PackingResult<Vec<u8>>" % t, "x.pack_to_vec()", verify_errors,
               ("packing " + t, [mem(k, "x.1.0"), mem(j, "x.1.1"), mem(j, "x.2")], [b for p in ("x.0", "x.1.0.v", "x.1.1.v", "x.2.v") for b in lsb(p, 8)[::-1]], "vec"))
        t = "Vec<(P%d, u8)>" % k
        sh.add("vt%d_u" % k, "(b: &[u8; 4]) -> PackingResult<%s>" % t, SL % t + "::unpack_from_slice(&b[..])", verify_errors,
               ("unpacking " + t, [umem(k, 0), umem(k, 2)], ("vec", [("tuple", [val("P%d" % k, 2 * i), ("int", byte("b", 2 * i + 1))]) for i in range(2)]), "value"))
    # structures in tuples and vectors
    for s in [x for x in ss if x.num_bytes <= 4][::5]:
        N, t = s.num_bytes, s.name
        b2 = [("l", "b[%d]" % (i // 8), 7 - i % 8) for i in range(16 * N)]
        ms = members(s, None, b2[:8 * N], "0.") + members(s, None, b2[8 * N:], "1.")
        sh.add("vs%s_u" % t, "(b: &[u8; %d]) -> PackingResult<Vec<%s>>" % (2 * N, t), "<Vec<%s> as PackedStructSlice>::unpack_from_slice(&b[..])" % t, verify_errors,
               ("unpacking two " + t, ms, ("vec", [s.expect_unpack(b2[:8 * N])[0], s.expect_unpack(b2[8 * N:])[0]]), "value"))
        tt = "(%s, %s)" % (t, t)
        sh.add("ts%s_v" % t, "(x: &%s) -> PackingResult<Vec<u8>>" % tt, "x.pack_to_vec()", verify_errors,
               ("packing " + tt, members(s, "x.0") + members(s, "x.1"), s.expect_pack("x.0") + s.expect_pack("x.1"), "vec"))


CHECKS = {"C24": c24}
