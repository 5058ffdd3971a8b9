"""The runtime visualisation (C21)."""
import random, re
from . import corpus as C, model as M, verify as V
from .model import *
from .checks_struct import progs

HEAD = M.HEADER + """use core::fmt::Write;
pub fn vp_sink(_b: &[u8]) {}
pub fn vp_fmt_str(f: &mut core::fmt::Formatter, s: &str) -> core::fmt::Result { f.write_str(s) }
pub fn vp_to_string<T: core::fmt::Display>(x: &T) -> String { format!("{}", x) }
pub struct Sink;
impl core::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> core::fmt::Result { vp_sink(s.as_bytes()); Ok(()) } }
"""
SECTIONS = ["header", "raw_decimal", "raw_hex", "raw_binary", "fields"]


def show_structs(run):
    """structures whose visualisation splits into few cases"""
    out = []

    def S(fields, **kw):
        kw.setdefault("endian", ("msb", "lsb")[len(out) % 2])
        out.append(Struct("V%d" % len(out), fields, **kw))
    names = ["a", "bb", "ccc", "value", "r#type", "a_rather_long_field_name", "x1", "y", "target", "packed", "src", "b", "_z"]
    pool = C.nested_pool()
    small = [n for n in pool if len(n.fields) <= 3 and n.num_bytes <= 4 and not any(isinstance(f.elem, (En, Bool, Nest, Ca)) for f in n.fields)]
    en = next(e for e in (C.enums().values() if isinstance(C.enums(), dict) else C.enums()) if 2 <= len(e.variants) <= 4 and e.pw == 8)
    # every width at every offset, alone and among others
    for w, off in [(w, o) for w in range(1, 65) for o in {3 * w % 8, (w + 1) % 8}]:
        nat = fit_native(w, w % 2 == 0)
        fs = [Field(names[w % len(names)], IntN(nat, w), off, w, endian=("lsb", "msb")[w % 2])]
        if w % 3 == 0:
            fs.append(Field("q", Bool(), off + w, 1))
        if w % 4 == 0:
            fs.append(Field("r#match", Int("u8"), off + w + 3, 5))
        if w % 5 == 0:
            fs.reverse()
        S(fs, numbering="lsb0" if w % 7 == 3 else "msb0", size=(off + w + 16) // 8 + 1 if w % 7 in (3, 4) else None)
    # arrays of every kind, order of declaration against order of position
    for i, (el, w, n) in enumerate([(Int("u8"), 8, 3), (Int("i8"), 3, 4), (Int("u16"), 16, 2), (IntN("u16", 12), 12, 2), (Bool(), 1, 2), (En(en), en.min_width(), 2), (Int("u8"), 8, 1), (Int("u8"), 1, 11), (Int("i32"), 20, 2), (Int("u8"), 8, 12)]):
        for num in ("msb0", "lsb0"):
            fs = [Field("arr", el, 5, w * n, count=n, endian="lsb" if i % 2 else "msb"), Field("before", Int("u8"), 0, 5)]
            if i % 3:
                fs.reverse()
            S(fs, numbering=num, size=(5 + w * n + 7) // 8 + 1)
    for k, n in enumerate(small[:6]):
        S([Field("head", Int("u8"), 0, 3), Field("inner", Nest(n), 3, 8 * n.num_bytes), Field("tail", Bool(), 3 + 8 * n.num_bytes, 1)])
        S([Field("inner", Nest(n), 8, 16 * n.num_bytes, count=2), Field("head", Int("u8"), 0, 7)])
    S([Field("e", En(en), 2, en.min_width()), Field("rz", Res(False, 5), 8, 5), Field("ro", Res(True, 3), 13, 3), Field("flag", Bool(), 16, 1), Field("n", Int("i64"), 17, 33)])
    S([Field("ro", Res(True, 12), 3, 12), Field("x", Int("u8"), 16, 8)])
    S([Field("only", Bool(), 0, 1)])
    S([Field("only", Bool(), 7, 1)], size=1)
    S([Field("f%d" % i, Int("u8"), 8 * i, 8, note="next") for i in range(12)], numbering=None)
    S([Field("f%d" % i, Int("u8"), 5 * (11 - i), 5) for i in range(12)])
    S([Field("wide", Int("u64"), 0, 64), Field("b0", Int("u8"), 64, 4)])
    S([Field("w33", IntN("u64", 33), 1, 33), Field("b0", Int("u8"), 34, 4)])
    S([Field("w34", IntN("u64", 34), 1, 34), Field("b0", Int("u8"), 35, 4)])
    S([Field("far", Int("u8"), 8 * 130 + 3, 6), Field("near", Int("u8"), 0, 2)], size=140)
    # many lines: the widest or the longest-named field first, in the middle, last
    for num in ("msb0", "lsb0"):
        for n, at in ((18, 17), (34, 33), (40, 0), (70, 66), (130, 129), (24, 12)):
            fs, pos = [], 0
            for i in range(n):
                w = 13 if i == at else 1 + i % 3
                fs.append(Field("the_long_one" if i == at else "q%d" % i, Int("u16" if i == at else "u8"), pos, w, endian="lsb"))
                pos += w
            S(fs, numbering=num, size=ceil8(pos))
    S([Field("m", IntN("u8", 3), 0, 3 * 20, 20), Field("late", Int("u16"), 60, 12), Field("n", Int("u8"), 72, 8 * 17, 17)], numbering="msb0")
    S([Field("m", IntN("u8", 3), 0, 3 * 110, 110), Field("late", Int("u16"), 330, 12)], numbering="msb0")
    rnd = random.Random(run.seed * 77 + 5)
    k = 0
    while k < (200 if run.thorough else 60):
        s = C.random_struct(rnd, "Vr%d" % k, small)
        if s.num_bytes <= 24 and sum(3 if isinstance(f.elem, (En, Ca)) else 1 if isinstance(f.elem, Bool) else 0 for f in s.fields for _ in f.elems()) <= 6:
            out.append(s)
            k += 1
    return out


def witness(s, flags=None):
    ref = "".join("vp_sink(&[1]); { let s = format!(\"{:?}\", x.%s%s); vp_sink(s.as_bytes()); } " % (f.name, suf) for f in s.fields for suf, *_ in f.elems())
    d = "packed_struct::debug_fmt::PackedStructDisplay::new(x)"
    if flags is None:
        d = "x.packed_struct_display_formatter()"
    else:
        d = "{ let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(x); %s d }" % "".join("d.%s = %s; " % (k, "true" if v else "false") for k, v in flags.items())
    return "(x: &%s) -> core::fmt::Result { let mut s = Sink; write!(s, \"{}\", %s)?; %s Ok(()) }\n" % (s.name, d, ref)


# ---- reading the text ----
def chars(log):
    """list of: int (a character), ("s", bits), ("t", token number)"""
    raw = list(log.encode()) if isinstance(log, str) else [b["n"] if "n" in b else ("s", b["bits"]) for b in log["symstr"]]
    out, i = [], 0
    while i < len(raw):
        if raw[i] == 123 and i + 1 < len(raw) and raw[i + 1] == 35:
            j = raw.index(125, i)
            out.append(("t", int("".join(chr(c) for c in raw[i + 2:j]))))
            i = j + 1
        else:
            out.append(raw[i])
            i += 1
    return out


def split(cs, sep):
    out = [[]]
    for c in cs:
        if c == sep:
            out.append([])
        else:
            out[-1].append(c)
    return out


def plain(cs):
    return "".join(chr(c) if isinstance(c, int) else "\0" for c in cs)


def strip(cs, what=" \r\n"):
    cs = list(cs)
    while cs and isinstance(cs[0], int) and chr(cs[0]) in what:
        cs.pop(0)
    while cs and isinstance(cs[-1], int) and chr(cs[-1]) in what:
        cs.pop()
    return cs


class Bad(Exception):
    pass


class Open(Exception):
    """a way of printing the comparison does not follow"""


class Digits:
    """the value of digits that depend on the input, as functions of it"""

    def __init__(self, t, cs, base):
        self.t, self.cs, self.base, self.memo = t, [c[1] if isinstance(c, tuple) else [c >> i & 1 for i in range(8)] for c in cs], base, (None, None)
        self.sup = frozenset().union(*[t.support(b) for c in self.cs for b in c if b > 1])

    def at(self, L):
        if self.memo[0] is not L:
            self.memo = (L, self.value(L))
        return self.memo[1]

    def value(self, L):
        full, ok, v = L.full, L.full, [L.full & 0] * 12
        for c in self.cs:
            b = [full & L.ev(x) for x in c]
            ok = ok & L.member(b[::-1], {2: [(48, 49)], 10: [(48, 57)], 16: [(48, 57), (65, 70), (97, 102)]}[self.base])
            # the low four bits, plus nine for letters
            h = b[6]
            d = self.add(L, b[:4], [h, full & 0, full & 0, h])
            v = self.add(L, {2: lambda: self.shl(L, v, 1), 16: lambda: self.shl(L, v, 4), 10: lambda: self.add(L, self.shl(L, v, 3), self.shl(L, v, 1))}[self.base](), d)
        over = v[8] | v[9] | v[10] | v[11]
        return v, ok & (full ^ over)

    def shl(self, L, v, k):
        return ([L.full & 0] * k + v)[:len(v)]

    def add(self, L, a, b):
        out, c = [], L.full & 0
        b = list(b) + [L.full & 0] * (len(a) - len(b))
        for x, y in zip(a, b):
            out.append(x ^ y ^ c)
            c = (x & y) | (c & (x ^ y))
        return out

    def bits(self):
        return [((lambda L, i=i: self.at(L)[0][i]), self.sup) for i in range(8)]

    def valid(self):
        return (lambda L: self.at(L)[1]), self.sup


BASES = {"Decimal": (10, "", ("Display", "Debug")), "Hex": (16, "0x", ("UpperHex", "LowerHex")), "Binary": (2, "0b", ("Binary",))}


def number(t_, cs, base, prefix, kinds, tokens, what, pairs):
    """the bits (lsb first) of a byte printed in the given base"""
    cs = strip(cs)
    p = plain(cs)
    if prefix:
        if p[:2].lower() == prefix:
            cs = cs[2:]
        elif not (len(cs) == 1 and isinstance(cs[0], tuple)):
            raise Bad("%s: %r does not start with %s" % (what, p, prefix))
    if len(cs) == 1 and isinstance(cs[0], tuple) and cs[0][0] == "t":
        t = tokens[cs[0][1]]
        if t["kind"] not in kinds:
            raise Bad("%s is printed with %s" % (what, t["kind"]))
        v = t["v"]
        return V.T.int_bits(v)[2]
    if cs and all(isinstance(c, int) or c[0] == "s" for c in cs) and any(isinstance(c, tuple) for c in cs):
        d = Digits(t_, cs, base)
        pairs.append(("%s (a number in base %d below 256)" % (what, base), d.valid(), ("c", 1)))
        return d.bits()
    try:
        n = int(plain(cs), base)
    except ValueError:
        raise Bad("%s: %r is not a number in base %d" % (what, plain(cs), base))
    return [n >> i & 1 for i in range(8)]


def verify_show(cx, s, flags=None):
    if not cx.problems():
        return
    exp = s.expect_pack("x")
    flags = dict({k: True for k in SECTIONS}, **(flags or {}))
    els = [(f.path_name + suf, w0, w, f, suf) for f in s.fields for suf, el, w0, w in f.elems()]
    widest = max(w for _, _, w, _, _ in els)
    for p in cx.e["parts"]:
        ok, v = V.result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("error", "the visualisation fails")
            continue
        pairs = []
        try:
            one(cx, s, chars(p["log"]), exp, els, widest, flags, pairs)
        except Open as e:
            cx.st.add("paths left open")
            cx.st.setdefault("open", []).append("%s: %s" % (cx.where, e))
            continue
        except Bad as e:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("text", str(e), [s.decl()])
            continue
        cx.same(p["g"], pairs, "text", "the visualisation of %s" % s.name)


def one(cx, s, cs, exp, els, widest, flags, pairs):
    toks = cx.e["tokens"]
    texts = split(cs, 1)
    if len(texts) != len(els) + 1:
        raise Bad("the visualisation contains a control character")
    refs = texts[1:]
    lines = [strip(l) for l in split(texts[0], 10)]
    txt = [plain(l) for l in lines]
    first = next((i for i, t in enumerate(txt) if t in BASES), None)
    marks = {t: i for i, t in enumerate(txt) if t in BASES}
    for b, flag in (("Decimal", "raw_decimal"), ("Hex", "raw_hex"), ("Binary", "raw_binary")):
        if flags[flag] and b not in marks:
            raise Bad("there is no %s section" % b)
        if not flags[flag] and b in marks:
            raise Bad("the %s section is printed though it is switched off" % b)
    head = [t for t in txt[:first if first is not None else len(txt)] if t]
    if flags["header"]:
        h = head[0] if head else ""
        if not re.search(r"(?<![\w#])%s(?!\w)" % re.escape(s.name), h):
            raise Bad("the header %r does not name %s" % (h, s.name))
        nums = re.findall(r"(?<!\w)\d+(?!\w)", h.replace(s.name, " ", 1))
        if nums != [str(s.num_bytes)]:
            raise Bad("the header %r does not give the size of %d bytes" % (h, s.num_bytes))
    elif any(re.search(r"\b%s\b.*byte" % re.escape(s.name), t) for t in txt):
        raise Bad("the header is printed though it is switched off")
    end = 1 if flags["header"] and first is None else 0
    order_ = [b for b in ("Decimal", "Hex", "Binary") if b in marks]
    if sorted(order_, key=lambda b: marks[b]) != order_:
        raise Bad("the raw sections are out of order")
    for b in order_:
        base, prefix, kinds = BASES[b]
        i = marks[b] + 1
        while i < len(lines) and not lines[i]:
            i += 1
        l = lines[i] if i < len(lines) else []
        if not l or l[0] != ord("[") or l[-1] != ord("]"):
            raise Bad("the %s section has no list" % b)
        items = split(l[1:-1], ord(","))
        if len(items) != s.num_bytes:
            raise Bad("the %s section lists %d bytes instead of %d" % (b, len(items), s.num_bytes))
        for n, it in enumerate(items):
            bits = number(cx.t, it, base, prefix, kinds, toks, "%s byte %d" % (b, n), pairs)
            if len(bits) != 8:
                raise Bad("%s byte %d is not a byte" % (b, n))
            for k in range(8):
                pairs.append(("%s section, byte %d bit %d" % (b, n, 7 - k), bits[k], exp[8 * n + 7 - k]))
        end = i + 1
    rest = [l for l in lines[end:] if l]
    if flags["header"] and not order_:
        rest = [l for l in lines if l][1:]
    if not flags["fields"]:
        if rest:
            raise Bad("the fields are printed though they are switched off")
        return
    if len(rest) != len(els):
        raise Bad("%d field lines instead of %d" % (len(rest), len(els)))
    for l, (name, start, w, f, suf), ref in zip(rest, els, refs):
        cols = split(l, ord("|"))
        n = plain(strip(cols[0]))
        if n != name:
            raise Bad("the line of %s is named %r" % (name, n))
        if widest < 34 and len(cols) != 4:
            raise Bad("the line of %s has %d columns" % (name, len(cols)))
        if len(cols) == 4:
            at = re.findall(r"\d+", plain(cols[1]))
            if at != [str(start), str(start + w - 1)] and not (w == 1 and at == [str(start)]):
                raise Bad("%s is said to be at %s instead of %d:%d" % (name, plain(strip(cols[1])), start, start + w - 1))
            d = strip(cols[2])
            if plain(d[:2]) != "0b" or len(d) != w + 2:
                raise Bad("%s: %d digits instead of %d" % (name, len(d) - 2, w))
            for k, c in enumerate(d[2:]):
                bits = [c >> i & 1 for i in range(8)] if isinstance(c, int) else c[1] if c[0] == "s" else None
                if bits is None:
                    raise Bad("%s: digit %d is not a digit" % (name, k))
                for i in range(8):
                    pairs.append(("%s digit %d" % (name, k), bits[i], exp[start + k] if i == 0 else ("c", 0x30 >> i & 1)))
        same_text(cx.t, toks, strip(cols[-1], ' \r\n"'), strip(ref), name, pairs)


def raw(t, b):
    """an analysed bit as an expectation"""
    return ("c", b) if b in (0, 1) else ("f", lambda L: L.ev(b), t.support(b), [])


def literal(cs):
    """length and value of the number at the start of a text"""
    m = re.match(r"-?\d+", plain(cs))
    return (m.end(), int(m.group())) if m else (0, None)


def same_text(t, toks, got, want, name, pairs):
    def differs():
        syms = [c for c in got + want if isinstance(c, tuple)]
        if syms and any(c[0] == "s" for c in syms) and any(c[0] == "t" for c in syms):
            return Open("the value of %s is printed in different ways" % name)
        return Bad("the value of %s is printed as %r instead of %r" % (name, plain(got), plain(want)))
    i = j = 0
    while i < len(got) and j < len(want):
        a, b = got[i], want[j]
        ka, kb = ("c" if isinstance(x, int) else x[0] for x in (a, b))
        if ka == kb == "c":
            if a != b:
                raise differs()
        elif ka == kb == "t":
            ta, tb = toks[a[1]], toks[b[1]]
            if ta["kind"] != tb["kind"] or ta.get("opts") != tb.get("opts"):
                raise Bad("the value of %s is printed with other formatting (%s)" % (name, ta["kind"]))
            x, y = V.T.int_bits(ta["v"])[2], V.T.int_bits(tb["v"])[2]
            if len(x) != len(y):
                raise Bad("the value of %s is of another type" % name)
            pairs += [("value of %s, bit %d" % (name, k), p, raw(t, q)) for k, (p, q) in enumerate(zip(x, y))]
        elif "t" in (ka, kb) and "c" in (ka, kb):
            # a number that is known on one side
            tok, n, v = (toks[a[1]],) + literal(want[j:]) if ka == "t" else (toks[b[1]],) + literal(got[i:])
            if tok["kind"] not in ("Display", "Debug") or tok.get("opts"):
                raise Open("the value of %s is printed in different ways" % name)
            if not n:
                raise differs()
            x = V.T.int_bits(tok["v"])[2]
            pairs += [("value of %s, bit %d" % (name, k), p, ("c", v >> k & 1)) for k, p in enumerate(x)]
            i, j = (i + 1, j + n) if ka == "t" else (i + n, j + 1)
            continue
        elif "t" in (ka, kb):
            raise Open("the value of %s is printed in different ways" % name)
        else:
            ba = [a >> k & 1 for k in range(8)] if ka == "c" else a[1]
            bb = [b >> k & 1 for k in range(8)] if kb == "c" else b[1]
            pairs += [("value of %s" % name, p, raw(t, q)) for p, q in zip(ba, bb)]
        i, j = i + 1, j + 1
    if i < len(got) or j < len(want):
        raise differs()


def c21(run):
    ss = show_structs(run)
    n = 7
    groups = [ss[i::n] for i in range(n)]
    texts = []
    for i, g in enumerate(groups):
        out, done = [HEAD], set()
        for s in g:
            for x in s.nested() + [s]:
                if x.name not in done:
                    done.add(x.name)
                    out.append(x.decl())
            out.append("pub fn w_%s%s" % (s.name, witness(s)))
        texts.append(("show%d" % i, "\n".join(out)))
    fl = Struct("Flags", [Field("a", Int("u8"), 0, 3), Field("b", Int("u16"), 3, 16, endian="lsb"), Field("c", Bool(), 21, 1)], size=3)
    combos = [{k: bool(m >> i & 1) for i, k in enumerate(SECTIONS)} for m in range(32)]
    texts.append(("flags", HEAD + fl.decl() + "".join("pub fn w_flags%d%s" % (i, witness(fl, c)) for i, c in enumerate(combos))))
    got, errs = run.crates(texts)
    tasks = []

    def entry(crate, name):
        r = got[crate]
        if r is None:
            run.find("build", crate, "does not compile: %s" % R_first(errs[crate]))
            return None
        t, es = r
        e = es.get("w_" + name)
        if e is None:
            run.find("missing", name, "was not analysed")
            return None
        return run.ctx(t, e, "visualisation of %s" % name)
    for i, g in enumerate(groups):
        for s in g:
            cx = entry("show%d" % i, s.name)
            if cx:
                tasks.append((cx, verify_show, (s,)))
    for i, c in enumerate(combos):
        cx = entry("flags", "flags%d" % i)
        if cx:
            tasks.append((cx, verify_show, (fl, c)))
    run.verify(tasks)
    run.require("visualisations analysed", len(tasks), 125)
    run.samples.append({"declaration": ss[3].decl()})
    return run.finish("translation_validation", "The text written by the display formatter of every structure is interpreted for all values at once; header, raw sections, names, positions, digits (bit by bit) and values (against the field's own Debug text, interpreted in the same run) "
                      "are compared with the declaration. Each of the 32 combinations of section switches is interpreted for one structure.", {"programs": len(tasks), "disagreements_checked": len(tasks)})


def R_first(err):
    from . import runner
    return runner.first_error(err)


CHECKS = {"C21": c21}
