"""Ill-formed declarations are rejected, their corrected twins are not (C17)."""
import re
from . import model as M, build, verify as V

HEAD = M.HEADER + """
#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)] pub enum E8 { A = 0, B = 1, C = 3 }
#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)] pub enum E16 { A = 0, B = 300 }
#[derive(PrimitiveEnum_u64, Clone, Copy, Debug, PartialEq)] pub enum EU64 { A = 0, B = 1 }
#[derive(PrimitiveEnum_u16, Clone, Copy, Debug, PartialEq)] pub enum EU16 { A = 0, B = 1 }
#[derive(PrimitiveEnum_i16, Clone, Copy, Debug, PartialEq)] pub enum EI16 { A = 0, B = 1 }
#[derive(PrimitiveEnum_u32, Clone, Copy, Debug, PartialEq)] pub enum EU32 { A = 0, B = 1 }
#[derive(PrimitiveEnum_i32, Clone, Copy, Debug, PartialEq)] pub enum EI32 { A = 0, B = 1 }
#[derive(PrimitiveEnum_i64, Clone, Copy, Debug, PartialEq)] pub enum EI64 { A = 0, B = 1 }
#[derive(PackedStruct, Clone, Copy, Debug, PartialEq)] pub struct N1 { pub a: u8 }
#[derive(PackedStruct, Clone, Copy, Debug, PartialEq)] #[packed_struct(endian="msb")] pub struct N2 { pub a: u8, pub b: u8 }
pub type Alias = u8;
pub const THREE: usize = 3;
"""


class Pairs:
    def __init__(self):
        self.items = []  # (rule, good text, bad text)
        self.seen = set()

    def add(self, rule, good, bad):
        if (good, bad) not in self.seen:
            self.seen.add((good, bad))
            self.items.append((rule, good, bad))


def struct(fields, attrs="", shape=" { %s }"):
    """fields: [(attribute arguments, type)]"""
    a = "#[packed_struct(%s)] " % attrs if attrs else ""
    fs = ", ".join("%spub f%d: %s" % ("#[packed_field(%s)] " % at if at else "", i, ty) for i, (at, ty) in enumerate(fields))
    return "#[derive(PackedStruct)] %spub struct S%s" % (a, shape % fs)


def kinds(w):
    """types (with extra attributes) that can take exactly w bits"""
    out = []
    if w == 1:
        out += [("bool", "")]
    if w <= 8:
        out += [("u8", ""), ("i8", ""), ("E8", 'ty="enum"'), ("Integer<u8, packed_bits::Bits::<%d>>" % w, ""), ("N1", "")]
    if 8 < w <= 16:
        out += [("u16", 'endian="lsb"'), ("Integer<i16, packed_bits::Bits::<%d>>" % w, 'endian="msb"'), ("E16", 'ty="enum", endian="le"'), ("N2", "")]
    if 16 < w <= 32:
        out += [("i32", 'endian="be"')]
    out += [("ReservedZero<packed_bits::Bits::<%d>>" % w, ""), ("ReservedOne<packed_bits::Bits::<%d>>" % w, "")]
    if w % 8 == 0 and w > 8:
        out += [("[u8; %d]" % (w // 8), "")]
    if w % 3 == 0 and w <= 24:
        out += [("[u8; 3]", ""), ("[E8; 3]", 'ty="enum"')]
    if w % 2 == 0 and w <= 16:
        out += [("[i8; 2]", "")]
    if 1 < w <= 8:
        out += [("[bool; %d]" % w, "")]
    return out


def at(pos, extra="", key="bits"):
    return '%s="%s"' % (key, pos) + (", " + extra if extra else "")


def pos(a, b, numbering, size, style):
    if numbering == "lsb0":
        a, b = 8 * size - 1 - b, 8 * size - 1 - a
    lo, hi = min(a, b), max(a, b)
    if style % 4 == 3 and lo % 8 == 0 and hi % 8 == 7:
        return ("%d:%d" % (lo // 8, hi // 8), "bytes")
    return (["%d..=%d" % (lo, hi), "%d:%d" % (hi, lo), "%d..%d" % (lo, hi + 1)][style % 3], "bits")


def overlaps(p):
    """two of three fields share at least one bit"""
    k = 0
    shapes = [((0, 7), (7, 14)), ((0, 7), (7, 7)), ((0, 7), (0, 0)), ((8, 15), (3, 8)), ((3, 12), (5, 6)), ((5, 6), (3, 12)), ((0, 15), (0, 15)), ((16, 16), (16, 16)), ((2, 3), (3, 4)),
              ((8, 23), (0, 8)), ((0, 23), (23, 23)), ((6, 11), (11, 13)), ((24, 31), (30, 32)), ((0, 31), (31, 38)), ((0, 8), (8, 16))]
    for (a, b), (c, d) in shapes:
        size = 8
        # the corrected twin moves the second field past the first
        c2 = max(b + 1, 40) if (c % 8 == 0) else max(b + 1, 40 + c % 8)
        for n, x in enumerate(kinds(b - a + 1)):
            for m, y in enumerate(kinds(d - c + 1)):
                if (n + m + k) % 3 and n and m:
                    continue
                k += 1
                num = ("msb0", "lsb0")[k % 2]
                sz = 'bit_numbering="%s"' % num + (', size_bytes="%d"' % size if num == "lsb0" or k % 3 else "")

                def build_(c_, d_):
                    f1 = pos(a, b, num, size, k)
                    f2 = pos(c_, d_, num, size, k // 2)
                    f3 = pos(62, 62, num, size, 0)
                    fs = [(at(f1[0], x[1], f1[1]), x[0]), (at(f2[0], y[1], f2[1]), y[0])]
                    if k % 2:
                        fs.reverse()
                    if k % 3 == 0:
                        fs.insert(1, (at(f3[0], "", f3[1]), "bool"))
                    return struct(fs, sz)
                p.add("overlap", build_(c2, c2 + d - c), build_(c, d))
    # positions that follow from the previous field
    for w1, w2 in ((8, 8), (3, 5), (12, 4), (16, 16), (1, 7), (9, 2)):
        for x in kinds(w2)[:4]:
            y = kinds(w1)[0]
            for st in (16, 17, 20):
                for hit in {st, st + w2 - 1}:
                    first = (at("%d..=%d" % (hit, hit + w1 - 1), y[1]), y[0])
                    okst = (at("%d..=%d" % (64, 64 + w1 - 1), y[1]), y[0])
                    arr = "element_size_bits" if x[0].startswith("[") else "size_bits"
                    if x[0].startswith("["):
                        continue
                    base = [(at("%d.." % st, (x[1] + ", " if x[1] else "") + '%s="%d"' % (arr, w2)), x[0])]
                    for o in (0, 1):
                        p.add("overlap", struct((base + [okst])[::1 - 2 * o], 'bit_numbering="msb0"'), struct((base + [first])[::1 - 2 * o], 'bit_numbering="msb0"'))
                    prev = (at("%d:%d" % (st - 4, st - 1)), "u8")
                    nxt = ((x[1] + ", " if x[1] else "") + '%s="%d"' % (arr, w2), x[0])
                    p.add("overlap", struct([okst, prev, nxt], 'bit_numbering="msb0"'), struct([first, prev, nxt], 'bit_numbering="msb0"'))
    # inside arrays: the other field meets each element in turn
    for n in (2, 3, 5):
        for w in (1, 4, 8):
            for i in range(n):
                for num in ("msb0", "lsb0"):
                    e = pos(8, 8 + n * w - 1, num, 8, 0)[0]
                    h = pos(8 + i * w, 8 + i * w, num, 8, 0)[0]
                    g = pos(8 + n * w, 8 + n * w, num, 8, 0)[0]
                    for ty, ex in (("u8", ""), ("E8", 'ty="enum"')):
                        s = 'bit_numbering="%s", size_bytes="8"' % num
                        p.add("overlap", struct([(at(e, ex), "[%s; %d]" % (ty, n)), (at(g), "bool")], s), struct([(at(e, ex), "[%s; %d]" % (ty, n)), (at(h), "bool")], s))


def too_long(p):
    """a field claims bits beyond the stated size"""
    for size in (1, 2, 3, 8):
        end = 8 * size
        for w in (1, 3, 8, 9, 16, 24):
            for x in kinds(w):
                ex = x[1] + ", " if x[1] else ""
                for over in {1, w}:
                    a = end - w + over
                    if a < 0:
                        continue
                    ok = 'bit_numbering="msb0", size_bytes="%d"' % (size + 4)
                    bad = 'bit_numbering="msb0", size_bytes="%d"' % size
                    f = [(at("%d..=%d" % (a, a + w - 1), x[1]), x[0])]
                    p.add("beyond the stated size", struct(f, ok), struct(f, bad))
                    if not x[0].startswith("["):
                        f = [(at("%d.." % a, ex + 'size_bits="%d"' % w), x[0])]
                        p.add("beyond the stated size", struct(f, ok), struct(f, bad))
                        if a:
                            f = [(at("%d:%d" % (a - 1, a - 1)), "bool"), (ex + 'size_bits="%d"' % w, x[0])]
                            p.add("beyond the stated size", struct(f, ok), struct(f, bad))
                            f = [(at("%d:%d" % (a - 1, a - 1)), "bool"), (ex + 'size_bits="%d"' % w, x[0]), (at("0"), "bool")] if a > 1 else f
                            p.add("beyond the stated size", struct(f, ok), struct(f, bad))
                    for lo in (end - w + over, end - w + 1):
                        if lo < 0:
                            continue
                        f = [(at("%d..=%d" % (lo, lo + w - 1), x[1]), x[0])]
                        p.add("beyond the stated size", struct(f, 'bit_numbering="lsb0", size_bytes="%d"' % (size + 4)), struct(f, 'bit_numbering="lsb0", size_bytes="%d"' % size))
        fs = [("", "u8")] * size
        p.add("beyond the stated size", struct(fs, 'size_bytes="%d"' % size), struct(fs + [("", "bool")], 'size_bytes="%d"' % size))
        p.add("beyond the stated size", struct(fs, 'size_bytes="%d"' % size), struct(fs + [("", "u8")], 'size_bytes="%d"' % size))
        p.add("beyond the stated size", struct([("", "[u8; %d]" % size)], 'size_bytes="%d"' % size), struct([("", "[u8; %d]" % (size + 1))], 'size_bytes="%d"' % size))
        f = [(at("%d" % size, "", "bytes"), "u8")]
        p.add("beyond the stated size", struct(f, 'bit_numbering="msb0", size_bytes="%d"' % (size + 1)), struct(f, 'bit_numbering="msb0", size_bytes="%d"' % size))


def no_width(p):
    for ty, ex, w, el in (("E8", 'ty="enum"', 8, 0), ("E16", 'ty="enum", endian="msb"', 16, 0), ("N1", "", 8, 0), ("N2", "", 16, 0), ("Alias", "", 8, 0),
                          ("[E8; 2]", 'ty="enum"', 8, 1), ("[N1; 3]", "", 8, 1), ("[N2; 2]", "", 16, 1)):
        k = "element_size_bits" if el else "size_bits"
        kb = "element_size_bytes" if el else "size_bytes"
        e2 = ", " + ex if ex else ""
        for key in ('%s="%d"' % (k, w), '%s="%d"' % (kb, w // 8)):
            p.add("width not determined", struct([(key + e2, ty)]), struct([(ex, ty)]))
            p.add("width not determined", struct([("", "u8"), (key + e2, ty)]), struct([("", "u8"), (ex, ty)]))
            p.add("width not determined", struct([(key + e2, ty), ("", "u8")]), struct([(ex, ty), ("", "u8")]))
            for st in ("0..", "8:", "0x10.."):
                p.add("width not determined", struct([(at(st, key + e2), ty)], 'bit_numbering="msb0"'), struct([(at(st, ex), ty)], 'bit_numbering="msb0"'))
            p.add("width not determined", struct([(at("1..", key + e2, "bytes"), ty)], 'bit_numbering="msb0"'), struct([(at("1..", ex, "bytes"), ty)], 'bit_numbering="msb0"'))


def no_byte_order(p):
    k = 0
    for nat, lo, hi in (("u16", 9, 16), ("i16", 9, 16), ("u32", 17, 32), ("i32", 17, 32), ("u64", 33, 64), ("i64", 33, 64)):
        for w in range(lo, hi + 1):
            for ty, ex in ((nat, ""), ("Integer<%s, packed_bits::Bits::<%d>>" % (nat, w), ""), ("E" + nat.upper(), 'ty="enum"')):
                k += 1
                r = "0..=%d" % (w - 1)
                o = 'endian="%s"' % ("msb", "lsb", "be", "le", "MSB", "Le")[k % 6]
                bn = 'bit_numbering="msb0"'
                bad = struct([(at(r, ex), ty)], bn)
                if k % 2:
                    p.add("no byte order", struct([(at(r, ex + ", " + o if ex else o), ty)], bn), bad)
                else:
                    p.add("no byte order", struct([(at(r, ex), ty)], bn + ", " + o), bad)
                if k % 5 == 0:
                    r = "8..=%d" % (8 + 2 * w - 1)
                    p.add("no byte order", struct([("bits=\"0..=7\"", "u8"), (at(r, ex), "[%s; 2]" % ty)], bn + ", " + o), struct([("bits=\"0..=7\", endian=\"msb\"", "u8"), (at(r, ex), "[%s; 2]" % ty)], bn))
                if k % 7 == 0:
                    p.add("no byte order", struct([(o, "u16"), ('size_bits="%d"' % w + (", " + ex if ex else ""), ty)], o + ', size_bytes="12"'), struct([(o, "u16"), ('size_bits="%d"' % w + (", " + ex if ex else ""), ty)], 'size_bytes="12"'))


def no_numbering(p):
    for ty, ex in (("u8", ""), ("E8", 'ty="enum"'), ("N1", ""), ("[u8; 2]", ""), ("ReservedZero<packed_bits::Bits::<8>>", "")):
        w = 16 if ty[0] == "[" else 8
        for ps, key in (("0..=%d" % (w - 1), "bits"), ("0..%d" % w, "bits"), ("%d:0" % (w - 1), "bits"), ("0..=%d" % (w // 8 - 1), "bytes")):
            f = [(at(ps, ex, key), ty)]
            p.add("no bit numbering", struct(f, 'bit_numbering="msb0"'), struct(f))
            p.add("no bit numbering", struct(f, 'bit_numbering="lsb0", size_bytes="2"'), struct(f, 'size_bytes="2"'))
            p.add("bit numbering from the least significant bit without a size", struct(f, 'bit_numbering="lsb0", size_bytes="4"'), struct(f, 'bit_numbering="lsb0"'))
        if ty[0] == "[":
            continue
        for ps, key in (("8..", "bits"), ("16:", "bits"), ("1..", "bytes")):
            f = [(at(ps, (ex + ", " if ex else "") + 'size_bits="8"', key), ty)]
            p.add("no bit numbering", struct(f, 'bit_numbering="msb0"'), struct(f))
            p.add("bit numbering from the least significant bit needs full positions", struct(f, 'bit_numbering="msb0", size_bytes="4"'), struct(f, 'bit_numbering="lsb0", size_bytes="4"'))
        n = ((ex + ", " if ex else "") + 'size_bits="8"', ty)
        p.add("bit numbering from the least significant bit needs full positions", struct([n], 'bit_numbering="msb0", size_bytes="4"'), struct([n], 'bit_numbering="lsb0", size_bytes="4"'))
        p.add("bit numbering from the least significant bit needs full positions", struct([(at("31:24"), "u8"), n], 'bit_numbering="msb0", size_bytes="5"'), struct([(at("31:24"), "u8"), n], 'bit_numbering="lsb0", size_bytes="5"'))
        p.add("no bit numbering", struct([("", "u8"), (at("8..=15", ex), ty)], 'bit_numbering="msb0"'), struct([("", "u8"), (at("8..=15", ex), ty)]))


def first_position(p):
    def S(f, k=""):
        return struct(f, 'bit_numbering="msb0", endian="msb"' + k)
    for n in range(1, 34):
        t = "Integer<%s, packed_bits::Bits::<%d>>" % ("u8" if n <= 8 else "u16" if n <= 16 else "u32" if n <= 32 else "u64", n)
        for tail in ((), (("", "bool"),), (("", "u8"),), ((at("%d..=%d" % (n + 2, n + 6)), "Integer<u8, packed_bits::Bits::<5>>"),), (("", "u16"), ('element_size_bits="3"', "[Integer<u8, packed_bits::Bits::<3>>; 2]"))):
            total = n + {0: 0, 1: 1}.get(len(tail), 22)
            if len(tail) == 1:
                total = n + {"bool": 1, "u8": 8}.get(tail[0][1], 7)
            if total % 8 == 0:
                continue
            tail = list(tail)
            p.add("place of the first field", S([("", t)] + tail, ', size_bytes="%d"' % ((total + 7) // 8)), S([("", t)] + tail))
            p.add("place of the first field", S([(at("0..=%d" % (n - 1)), t)] + tail), S([('size_bits="%d"' % n, t)] + tail))


def wrong_kind(p):
    for a in ('bits="0..=7"', 'size_bits="8"', 'endian="msb"'):
        g = '#[derive(PackedStruct)] #[packed_struct(bit_numbering="msb0")] pub struct S { #[packed_field(%s)] pub a: u8, pub b: u8 }' % a
        p.add("attribute of the wrong kind", g, g.replace("#[packed_field", "#[packed_struct"))
        g = '#[derive(PackedStruct)] #[packed_struct(bit_numbering="msb0")] pub struct S { pub a: u8, #[packed_field(size_bits="8")] #[packed_field(endian="lsb")] pub b: u8 }'
        p.add("attribute of the wrong kind", g, g.replace('#[packed_field(endian', '#[packed_struct(endian'))
        p.add("attribute of the wrong kind", g, g.replace('#[packed_field(size', '#[packed_struct(size'))
    for a in ('bit_numbering="msb0"', 'endian="lsb"', 'size_bytes="2"', 'bit_numbering="lsb0", size_bytes="2"'):
        f = '{ #[packed_field(bits="0..=7")] pub a: u8 }' if "num" in a else "{ pub a: [u8; 2] }"
        g = '#[derive(PackedStruct)] #[packed_struct(%s)] pub struct S %s' % (a, f)
        p.add("attribute of the wrong kind", g, g.replace("#[packed_struct", "#[packed_field"))
    g = '#[derive(PackedStruct)] #[packed_struct(bit_numbering="msb0")] pub struct S { #[packed_field(bits="0..=15")] pub a: [u8; 2] }'
    p.add("attribute of the wrong kind", g, g.replace("#[packed_field", "#[packed_struct"))
    for arr, n in (("[u8; 2]", 2), ("[E8; 3]", 3), ("[N1; 2]", 2), ("[bool; 4]", 4)):
        ex = ', ty="enum"' if "E8" in arr else ""
        w = 1 if "bool" in arr else 8
        for kind, val in (("bits", w), ("bits", w * n)) + ((("bytes", 1),) if w == 8 else ()):
            p.add("size of the whole given for an array", struct([('element_size_%s="%d"' % (kind, w if kind == "bits" else 1) + ex, arr)], 'size_bytes="4"'), struct([('size_%s="%d"' % (kind, val) + ex, arr)], 'size_bytes="4"'))


def array_shape(p):
    for n in (2, 3, 4, 5, 6, 7):
        for w in range(n + 1, 8 * n):
            if w % n == 0 or (w + n) % 3 == 2:
                continue
            for ty, ex in (("u8", ""), ("i8", ""), ("E8", 'ty="enum"'), ("N1", "")):
                if (w + len(ty)) % 2:
                    continue
                ok, bad = "0..=%d" % (w // n * n - 1), "0..=%d" % (w - 1)
                bn = 'bit_numbering="msb0"'
                p.add("array width", struct([(at(ok, ex), "[%s; %d]" % (ty, n))], bn), struct([(at(bad, ex), "[%s; %d]" % (ty, n))], bn))
        if n > 2:
            l = 'bit_numbering="lsb0", size_bytes="8"'
            p.add("array width", struct([(at("3..=%d" % (3 + 4 * n - 1)), "[u8; %d]" % n)], l), struct([(at("3..=%d" % (3 + 4 * n)), "[u8; %d]" % n)], l))


def shapes(p):
    D = "#[derive(PackedStruct)] "
    S = D + "pub struct S { pub a: u8 }"
    for bad in ("pub struct S<T> { pub a: u8, pub t: core::marker::PhantomData<T> }", "pub struct S<T> { pub a: T }", "pub struct S<'a> { pub a: u8, pub t: core::marker::PhantomData<&'a u8> }",
                "pub struct S<const N: usize> { pub a: u8 }", "pub struct S<T: Copy> where T: Send { pub a: u8, pub b: T }", "pub enum S { A, B }", "pub enum S { A(u8) }", "pub enum S { A { a: u8 } }",
                "pub union S { pub a: u8, pub b: u8 }", "pub struct S(pub u8);", "pub struct S(pub u8, pub u8);", "pub struct S(#[packed_field(size_bits=\"8\")] pub u8);", "pub struct S;", "pub struct S {}",
                "pub struct S { pub a: (u8, u8) }", "pub struct S { pub a: &'static u8 }", "pub struct S { pub a: fn() -> u8 }", "pub struct S { pub a: Option<u8> }", "pub struct S { pub a: f32 }", "pub struct S { pub a: char }",
                "pub struct S { pub a: String }", "pub struct S { pub a: usize }", "pub struct S { pub a: u128 }", "pub struct S { pub a: () }", "pub struct S { pub a: *const u8 }", "pub struct S { pub a: Vec<u8> }"):
        p.add("unsupported shape", S, D + bad)
    for ty, ex in (("u8", ""), ("bool", ""), ("E8", 'ty="enum"'), ("N1", ""), ("u16", 'endian="msb"'), ("ReservedZero<packed_bits::Bits::<8>>", "")):
        w = 1 if ty == "bool" else 16 if ty == "u16" else 8
        for key in ('element_size_bits="%d"' % w, 'element_size_bytes="%d"' % max(1, w // 8)):
            if ty == "bool" and "bytes" in key:
                continue
            a = key + (", " + ex if ex else "")
            p.add("array of no elements", struct([("", "u8"), (a, "[%s; 8]" % ty)]), struct([("", "u8"), (a, "[%s; 0]" % ty)]))
        b = 'bits="8..=%d"' % (8 + 8 * w - 1) + (", " + ex if ex else "")
        p.add("array of no elements", struct([(b, "[%s; 8]" % ty)], 'bit_numbering="msb0"'), struct([(b, "[%s; 0]" % ty)], 'bit_numbering="msb0"'))
    for bad in ("[[u8; 2]; 2]", "[u8; THREE]", "[u8; 1 + 1]", "[(u8, u8); 2]"):
        p.add("unsupported shape", struct([('element_size_bits="8"', "[u8; 2]")], 'size_bytes="4"'), struct([('element_size_bits="8"', bad)], 'size_bytes="4"'))
    for ty, w in (("E8", 8), ("E16", 16)):
        a = 'size_bits="%d", endian="msb"' % w
        p.add("enum without its attribute", struct([(a + ', ty="enum"', ty)]), struct([(a, ty)]))
    # enums
    for t in ("PrimitiveEnum", "PrimitiveEnum_u8", "PrimitiveEnum_i32"):
        d = "#[derive(%s, Clone, Copy, PartialEq, Debug)] " % t
        g = d + "pub enum E { A = 1, B = 2 }"
        for bad in ("pub struct E { a: u8 }", "pub struct E(u8);", "pub union E { a: u8 }", "pub enum E { A(u8), B }", "pub enum E { A {}, B }", "pub enum E { A = 1, B(), C { x: u8 } }", "pub enum E { A = 1 + 1, B }", "pub enum E { A = THREE as isize, B }",
                    "pub enum E { A = 'a' as isize }", "pub enum E { A = 1, B = 1 }"):
            p.add("unsupported enum", g, d + bad)


NUM_BAD = ["", " ", "x", "0x", "0xG", "-1", "-0", "1.5", "1 2", "1,2", "0b11", "1_0", "99999999999999999999999", "eight", "8u8", "8 bits", "0x10000000000000000", "+", "0x2000000000000001", "0xffffffffffffffff"]
POS_BAD = ["", " ", ":", "..", "..=", ":3", "..3", "..=3", "3..=", "0:1:2", "0..1..2", "0..=1..=2", "a:b", "a..b", "1-2", "x..", "x:", "0x..", "0:x", "x:0", "0..x", "x", "-1", "-1..3", "0;1", "0:1:", "1..2..", "0::1", "0...3", "0..=1:", "0.5", "0,1", "0..0",
           "3..3", "5..2", "0:0x", "1:2..", "..:", "0 1", "0x2000000000000001", "0x2000000000000000:0", "0xffffffffffffffff..", "0..0xffffffffffffffff", "0x2000000000000000..=0x2000000000000000"]


def malformed(p):
    ok = struct([('bits="0..=7"', "u8")], 'bit_numbering="msb0"')
    for v in POS_BAD:
        for key in ("bits", "bytes"):
            p.add("malformed position", ok, struct([('%s="%s"' % (key, v), "u8")], 'bit_numbering="msb0"'))
            p.add("malformed position", struct([('%s="0..", size_bits="8"' % key, "u8")], 'bit_numbering="msb0"'), struct([('%s="%s", size_bits="8"' % (key, v), "u8")], 'bit_numbering="msb0"'))
        p.add("malformed position", struct([('bits="0..=15"', "[u8; 2]")], 'bit_numbering="msb0"'), struct([('bits="%s"' % v, "[u8; 2]")], 'bit_numbering="msb0"'))
    for v in NUM_BAD + ["0"]:
        for key in ("size_bits", "size_bytes"):
            p.add("malformed number", struct([('size_bits="8"', "u8")]), struct([('%s="%s"' % (key, v), "u8")]))
        for key in ("element_size_bits", "element_size_bytes"):
            p.add("malformed number", struct([('element_size_bits="8"', "[u8; 2]")]), struct([('%s="%s"' % (key, v), "[u8; 2]")]))
        p.add("malformed number", struct([("", "u8")], 'size_bytes="1"'), struct([("", "u8")], 'size_bytes="%s"' % v))
    for ty, w in (("bool", 1), ("N1", 8), ("ReservedZero<packed_bits::Bits::<8>>", 8), ("E8", 8)):
        e = ', ty="enum"' if ty == "E8" else ""
        p.add("malformed number", struct([('size_bits="%d"' % w + e, ty), ("", "u8")], 'size_bytes="2"'), struct([('size_bits="0"' + e, ty), ("", "u8")], 'size_bytes="2"'))
        p.add("malformed number", struct([('bits="3..", size_bits="%d"' % w + e, ty)], 'bit_numbering="msb0"'), struct([('bits="3..", size_bits="0"' + e, ty)], 'bit_numbering="msb0"'))
        p.add("malformed number", struct([('element_size_bits="%d"' % w + e, "[%s; 2]" % ty), ("", "u8")], 'size_bytes="4"'), struct([('element_size_bits="0"' + e, "[%s; 2]" % ty), ("", "u8")], 'size_bytes="4"'))
    for v in ("", " ", "big", "little", "mbs", "ms", "msb0", "lsb ", "b e", "msb,lsb", "native", "1"):
        for ty in ("u8", "u16", "bool", "[u8; 2]"):
            o = 'size_bits="%d"' % (16 if ty == "u16" else 1 if ty == "bool" else 8) if ty[0] != "[" else 'element_size_bits="8"'
            p.add("unknown byte order", struct([(o + ', endian="msb"', ty)], 'size_bytes="4"'), struct([(o + ', endian="%s"' % v, ty)], 'size_bytes="4"'))
        p.add("unknown byte order", struct([("", "u8")], 'endian="msb"'), struct([("", "u8")], 'endian="%s"' % v))
        p.add("unknown byte order", struct([("", "u16")], 'endian="lsb"'), struct([('endian="lsb"', "u16")], 'endian="%s"' % v))
    for v in ("", " ", "msb", "lsb", "msb1", "lsb 0", "0", "be", "lsbo"):
        p.add("unknown bit numbering", struct([("", "u8")], 'bit_numbering="msb0"'), struct([("", "u8")], 'bit_numbering="%s"' % v))
        p.add("unknown bit numbering", struct([(at("7:0"), "u8")], 'bit_numbering="lsb0", size_bytes="1"'), struct([(at("7:0"), "u8")], 'bit_numbering="%s", size_bytes="1"' % v))
    for v in ("", "Enum", "enum ", "struct", "enumeration", "u8"):
        p.add("unknown kind of type", struct([('ty="enum", size_bits="8"', "E8")]), struct([('ty="%s", size_bits="8"' % v, "E8")]))
        p.add("unknown kind of type", struct([('size_bits="8"', "N1")]), struct([('ty="%s", size_bits="8"' % v, "N1")]))
    # not of the form name = "value"
    okf = struct([('bits="0"', "bool")], 'bit_numbering="msb0"')
    for a in ('bits=0', "bits='0'", 'bits=b"0"', 'bits=true', 'bits("0")', 'bits', 'bits="0" size_bits="1"', 'x::bits="0"', '"0"', '0', 'bits={"0"}', 'bits=-1', 'bits=0..1', 'bits=concat!("0")', 'bits=c"0"'):
        p.add("malformed attribute", okf, struct([(a, "bool")], 'bit_numbering="msb0"'))
    for a in ('size_bytes=1', "size_bytes='1'", 'size_bytes("1")', 'size_bytes', 'endian=msb', 'endian=true', 'bit_numbering=msb0', 'endian="msb" size_bytes="1"', '"msb0"', 'x::endian="msb"', 'endian=b"msb"'):
        p.add("malformed attribute", struct([("", "u8")], 'size_bytes="1"'), struct([("", "u8")], a))
    for a in ('#[packed_struct = "x"]', '#[packed_struct("size_bytes")]', '#[packed_struct(size_bytes="1",,)]', '#[packed_struct = 1]'):
        p.add("malformed attribute", "#[derive(PackedStruct)] pub struct S { pub a: u8 }", "#[derive(PackedStruct)] %s pub struct S { pub a: u8 }" % a)
        p.add("malformed attribute", "#[derive(PackedStruct)] pub struct S { pub a: u8 }", "#[derive(PackedStruct)] pub struct S { %s pub a: u8 }" % a.replace("packed_struct", "packed_field").replace("bytes", "bits"))


def locate(span, name):
    """the witness line behind a span, through its macro expansions"""
    while span:
        if span["file_name"].endswith(name + ".rs"):
            return span["line_start"]
        ex = span.get("expansion")
        span = ex["span"] if ex else None
    return None


def judge(run, items, name, cfg="default", rounds=40):
    """items: texts -> the message each is rejected with (None: accepted). Errors are attributed to declarations by their line."""
    left = list(range(len(items)))
    verdict, rnd = {}, 0
    while left:
        rnd += 1
        nm = "%s_r%d" % (name, rnd)
        head = HEAD.count("\n")
        text = HEAD + "".join("pub mod m%d { use super::*; %s }\n" % (i, items[i].replace("\n", " ")) for i in left)
        ok, diags = run.compile_all([(nm, text)], cfg)[nm]
        if ok:
            break
        hit = {}
        for d in diags:
            if d.get("level") != "error":
                continue
            for s in d.get("spans", []):
                l = locate(s, nm)
                if l is not None and head < l <= head + len(left) and (s.get("is_primary") or True):
                    hit.setdefault(left[l - head - 1], d["message"])
                    if s.get("is_primary"):
                        break
        if not hit or rnd > rounds:
            # errors without a place, or the compiler broke down: one at a time
            res = run.compile_all([("%s_s%d" % (name, i), HEAD + items[i] + "\n") for i in left], cfg)
            for i in left:
                ok, diags = res["%s_s%d" % (name, i)]
                if not ok:
                    verdict[i] = next((d["message"] for d in diags if d.get("level") == "error"), "?")
            break
        verdict.update(hit)
        left = [i for i in left if i not in hit]
    return [verdict.get(i) for i in range(len(items))]


def c17(run):
    from concurrent.futures import ThreadPoolExecutor
    p = Pairs()
    floors = {}
    for f in (overlaps, too_long, no_width, no_byte_order, no_numbering, first_position, wrong_kind, array_shape, shapes, malformed):
        f(p)
    by = {}
    for r, g, b in p.items:
        by.setdefault(r, []).append((g, b))
    goods = sorted({g for _, g, _ in p.items})
    bads = [(r, b) for r, _, b in p.items]
    n = 8
    for cfg, how in (("default", ""), ("release", " by the derive built without overflow checks")):
        build.lib(cfg)
        jobs = []
        for i in range(n):
            jobs.append(("good%d" % i, goods[i::n]))
            jobs.append(("bad%d" % i, [b for _, b in bads[i::n]]))
        with ThreadPoolExecutor(8) as ex:
            out = dict(zip([j[0] for j in jobs], ex.map(lambda j: judge(run, j[1], j[0], cfg), jobs)))
        for i in range(n):
            for g, v in zip(goods[i::n], out["good%d" % i]):
                if v is not None:
                    run.find("rejected", "declaration", "the well-formed declaration is rejected%s (%s)" % (how, v[:200]), [g])
            for (r, b), v in zip(bads[i::n], out["bad%d" % i]):
                if v is None:
                    run.find("accepted", r, "the ill-formed declaration is accepted%s" % how, [b])
                elif len(run.samples) < 6:
                    run.samples.append({"rule": r, "rejected": b[:300], "because": v[:160]})
        run.stats.add("compile-fail witnesses", len(bads))
        run.stats.add("compiling twins", len(goods))
    for r, l in by.items():
        run.require("rule: " + r, len(l), FLOORS[r])
    for r in FLOORS:
        if r not in by:
            run.require("rule: " + r, 0, FLOORS[r])
    run.assumptions.append("a declaration counts as rejected when the compiler attributes an error to it; its corrected twin differs only in the point the rule is about")
    return run.finish("other", "Compile-fail witnesses: every declaration of a list generated per rule (overlaps of every pair of field kinds, sizes exceeded by one bit, every width without byte order, ...) must be rejected and its corrected twin accepted. "
                      "The verdict is the compiler's, on the current derive code, built with and without overflow checks.", {"programs": len(bads) + len(goods)})


FLOORS = {"overlap": 1205, "beyond the stated size": 1412, "width not determined": 112, "no byte order": 418, "no bit numbering": 56, "bit numbering from the least significant bit without a size": 20, "bit numbering from the least significant bit needs full positions": 20, "place of the first field": 288, "attribute of the wrong kind": 10, "size of the whole given for an array": 11, "array width": 161, "unsupported shape": 30, "array of no elements": 17, "enum without its attribute": 2, "unsupported enum": 30, "malformed position": 195, "malformed number": 107, "unknown byte order": 72, "unknown bit numbering": 18, "unknown kind of type": 12, "malformed attribute": 34}
CHECKS = {"C17": c17}
