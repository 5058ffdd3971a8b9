"""The declarations the derive is analysed on."""
import random
from .model import *


def RES(n, one=False):
    return Res(one, n)


def enums():
    E = [
        Enum("E2", "u8", [("Zero", 0), ("One", 1), ("Two", 2), ("Three", 3)]),
        Enum("E3", "u8", [("A", 1), ("B", 4), ("C", 6)]),
        Enum("E8", "u8", [("A", 0), ("B", 7), ("C", 130), ("D", 255)]),
        Enum("Ei4", "i8", [("M", -8), ("N", -1), ("Z", 0), ("P", 5)]),
        Enum("Ei8", "i8", [("M", -128), ("N", -1), ("Z", 0), ("P", 127)]),
        Enum("E16", "u16", [("A", 1), ("B", 256), ("C", 513), ("D", 65535)]),
        Enum("E12", "u16", [("A", 0x123), ("B", 0xabc), ("C", 0xfff), ("D", 0)]),
        Enum("Ei16", "i16", [("A", -32768), ("B", -2), ("C", 5), ("D", 32767)]),
        Enum("E32", "u32", [("A", 0x01020304), ("B", 0x04030201), ("C", 0xffffffff), ("D", 0x80000000)]),
        Enum("E20", "u32", [("A", 0x12345), ("B", 0x54321), ("C", 0), ("D", 0xfffff)]),
        Enum("Ei32", "i32", [("A", -0x80000000), ("B", -3), ("C", 0x12345678)]),
        Enum("E64", "u64", [("A", 0x0102030405060708), ("B", 0), ("C", 0x7fffffffffffffff)]),
        Enum("Ei64", "i64", [("A", -0x7fffffffffffffff), ("B", -4), ("C", 0x1122334455667788)]),
        Enum("E1", "u8", [("Only", 5)]),
    ]
    return {e.name: e for e in E}


ENUMS = enums()
MINW = {"u8": 1, "i8": 1, "u16": 9, "i16": 9, "u32": 17, "i32": 17, "u64": 33, "i64": 33}


def width_structs():
    """every width 1..64 at every alignment, both byte orders, both signs"""
    out = []
    for endian in ("msb", "lsb"):
        for w in range(1, 65):
            fs, pos = [], 0
            for a in range(8):
                while pos % 8 != a:
                    pos += 1
                nat = fit_native(w, (w + a) % 2 == 0)
                # the width given by the position or by the wrapper
                el = Int(nat) if a % 2 == 0 else IntN(nat, w)
                fs.append(Field("f%d" % a, el, pos, w))
                pos += w
            out.append(Struct("W%s%d" % (endian[0].upper(), w), fs, endian=endian))
    return out


class Packer:
    """collects fields at chosen alignments and closes a structure every few fields"""

    def __init__(self, prefix, endian, per=4):
        self.prefix, self.endian, self.per = prefix, endian, per
        self.out, self.fs, self.pos = [], [], 0

    def add(self, elem, width, align=None, count=None, **kw):
        if align is not None:
            while self.pos % 8 != align:
                self.pos += 1
        self.fs.append(Field("f%d" % len(self.fs), elem, self.pos, width, count, **kw))
        self.pos += width
        if len(self.fs) >= self.per:
            self.close()

    def close(self):
        if self.fs:
            self.out.append(Struct("%s%d" % (self.prefix, len(self.out)), self.fs, endian=self.endian))
        self.fs, self.pos = [], 0


def bool_structs():
    p = Packer("Bo", None, 16)
    for a in range(8):
        p.add(Bool(), 1, a)
    for a in range(8):
        p.add(Bool(), 1 + a, (a * 3) % 8)
    p.close()
    q = Packer("Bx", None, 8)
    for w in range(1, 9):
        q.add(Bool(), w, (5 * w) % 8)
    q.close()
    return p.out + q.out


def enum_structs(catchall=False):
    out = []
    for endian in ("msb", "lsb"):
        p = Packer(("Ca" if catchall else "En") + endian[0].upper(), endian, 2 if catchall else 4)
        a = 0
        for E in ENUMS.values():
            lo = max(E.min_width(), MINW[E.prim])
            ws = sorted({lo, lo + 1, (lo + E.pw) // 2, E.pw - 1, E.pw})
            for w in [w for w in ws if lo <= w <= E.pw]:
                p.add(Ca(E) if catchall else En(E), w, a % 8)
                a += 3
        p.close()
        out += p.out
    return out


def reserved_structs():
    out = []
    for one in (False, True):
        p = Packer("Re%d" % one, "msb", 4)
        for w in list(range(1, 41)) + [47, 48, 56, 63, 64, 65, 71, 72, 96, 100, 127, 128, 200, 255]:
            p.add(Res(one, w), w, (w * 5) % 8)
            if w % 2:
                p.add(IntN("u8", 3), 3)
        p.close()
        out += p.out
    return out


def nested_pool():
    A = Struct("NestA", [Field("m", Int("u8"), 0, 8, note="next"), Field("s", Int("u16"), 8, 16, note="next")], endian="lsb")
    B = Struct("NestB", [Field("_reserved", RES(4), 0, 4, note="start"), Field("flag1", Bool(), 4, 1, note="next"),
                         Field("val1", IntN("u8", 2), 5, 2, note="next"), Field("flag2", Bool(), 7, 1, note="next")])
    Cc = Struct("NestC", [Field("a", IntN("u16", 11), 5, 11), Field("e", En(ENUMS["E3"]), 16, 3), Field("t", IntN("i8", 5), 19, 5)], endian="msb")
    D = Struct("NestD", [Field("arr", IntN("u8", 5), 0, 20, 4), Field("c", Ca(ENUMS["E8"]), 24, 8), Field("n", Nest(B), 20, 4)])
    E = Struct("NestE", [Field("x", Int("u64"), 0, 64), Field("y", Int("u16"), 64, 16), Field("z", Bool(), 87, 1)], endian="lsb")
    F = Struct("NestF", [Field("x", Int("i32"), 3, 32), Field("n", Nest(A), 35, 24)], size=8, endian="msb")
    return [A, B, Cc, D, E, F]


NEST = nested_pool()


def low_claimed(S):
    """the smallest width of a field that keeps every claimed bit of the nested structure"""
    return 8 * S.num_bytes - min(f.start for f in S.fields)


def nested_structs():
    out = []
    p = Packer("Ne", "lsb", 2)
    a = 1
    for S in NEST:
        lo, hi = low_claimed(S), 8 * S.num_bytes
        for w in sorted({lo, hi, (lo + hi) // 2}):
            if ceil8(w) != S.num_bytes:
                continue
            for al in (0, a % 8, (a + 3) % 8):
                p.add(Nest(S), w, al)
                a += 1
    p.close()
    # three levels
    L2 = Struct("Lev2", [Field("k", IntN("u8", 3), 0, 3), Field("n", Nest(NEST[2]), 3, 19 + 5 - 5), Field("q", IntN("u8", 2), 22, 2)], endian="lsb")
    L2.fields[1] = Field("n", Nest(NEST[2]), 3, 19)
    L3 = Struct("Lev3", [Field("h", IntN("u8", 7), 0, 7), Field("n", Nest(L2), 7, 24), Field("m", Nest(L2), 32, 24)])
    return p.out + [L2, L3]


def array_structs():
    out = []
    kinds = [
        (Bool(), (1,), 5), (IntN("u8", 3), (3,), 5), (IntN("i8", 7), (7,), 3), (Int("u8"), (8, 5, 2), 4), (Int("i8"), (8, 6), 3),
        (Int("u16"), (16, 12, 9), 3), (Int("i16"), (16, 13), 3), (IntN("u16", 10), (10,), 3), (Int("u32"), (32, 24, 19), 3), (IntN("i32", 29), (29,), 2),
        (Int("u64"), (64, 40, 35), 2), (IntN("i64", 33), (33,), 2), (En(ENUMS["E3"]), (3, 5, 8), 3), (En(ENUMS["E12"]), (12, 16), 2), (En(ENUMS["Ei4"]), (4, 8), 3),
        (Ca(ENUMS["E3"]), (3, 8), 2), (Ca(ENUMS["E12"]), (12, 16), 2), (RES(3), (3,), 4), (RES(9, True), (9,), 2),
    ]
    for endian in ("msb", "lsb"):
        p = Packer("Ar" + endian[0].upper(), endian, 2)
        a = 0
        for el, ws, n in kinds:
            for w in ws:
                for cnt in sorted({1, n}):
                    if cnt == 1 and w != ws[0]:
                        continue
                    p.add(el, w * cnt, a % 8, cnt)
                    a += 3
        for S in NEST[:4] + NEST[5:]:
            w = low_claimed(S)
            if ceil8(w) != S.num_bytes:
                w = 8 * S.num_bytes
            for wd in sorted({w, 8 * S.num_bytes}):
                p.add(Nest(S), wd * 3, a % 8, 3)
                a += 3
        p.close()
        out += p.out
    # many elements: two-digit indices keep numeric order
    out.append(Struct("ArMany", [Field("lead", IntN("u8", 3), 0, 3), Field("m", IntN("u8", 5), 3, 5 * 13, 13), Field("b", Bool(), 68, 12, 12), Field("w", Int("u8"), 80, 8 * 20, 20)]))
    out.append(Struct("ArMany2", [Field("m", Int("u16"), 1, 16 * 11, 11), Field("e", En(ENUMS["E2"]), 177, 2 * 11, 11)], endian="lsb"))
    return out


def large_structs():
    """beyond 64 bits, both on byte boundaries and across them"""
    out = []
    BA = Struct("Blob9", [Field("d", Int("u8"), 0, 72, 9)])
    BB = Struct("Blob17", [Field("d", Int("u8"), 0, 136, 17)])
    BC = Struct("Blob13", [Field("a", IntN("u8", 7), 1, 7), Field("d", Int("u8"), 8, 96, 12)])
    for al in range(8):
        fs, pos = [], al
        for i, (S, w) in enumerate(((BA, 72), (BB, 136), (BC, 103))):
            fs.append(Field("n%d" % i, Nest(S), pos, w))
            pos += w + (1 if i == 0 else 0)
        out.append(Struct("La%d" % al, fs))
    out.append(Struct("Big", [Field("d", Int("u8"), 0, 8 * 32, 32), Field("e", Int("u32"), 257, 32 * 5, 5), Field("f", IntN("u64", 61), 450, 61)], endian="lsb", size=70))
    return out


def wide_structs(deep=False):
    """single elements and arrays beyond 255 bits, at every alignment, and more than 255 of something"""
    out = []
    sizes = (31, 32, 33, 40, 64, 65) + ((100, 128, 129, 257) if deep else ())
    for n in sizes:
        B = Struct("Wb%d" % n, [Field("d", Int("u8"), 0, 8 * n, n)])
        S = Struct("Wc%d" % n, [Field("a", IntN("u8", 5), 3, 5), Field("d", Int("u8"), 8, 8 * (n - 2), n - 2), Field("z", IntN("u8", 6), 8 * n - 8, 6)])
        for al in range(8) if deep else sorted({(n * 3) % 8, (n * 5 + 1) % 8, (n + 4) % 8}):
            out.append(Struct("Wd%d_%d" % (n, al), [Field("n0", Nest(B), al, 8 * n), Field("n1", Nest(S), al + 8 * n, 8 * n - 3)]))
    out.append(Struct("Wmany", [Field("lead", Bool(), 0, 1), Field("m", IntN("u8", 3), 1, 3 * 260, 260), Field("t", Int("u16"), 781, 16)], endian="lsb"))
    out.append(Struct("Wfields", [Field("f%d" % i, IntN("u16", 1 + i % 9) if i % 9 > 7 else IntN("u8", 1 + i % 9) if i % 9 < 8 else Bool(), sum(1 + j % 9 for j in range(i)), 1 + i % 9) for i in range(70)], endian="msb"))
    return out


def notation_structs():
    """every position notation, alone and mixed, in both numberings"""
    out = []
    styles = ["range", "colon", "rev", "revc", "excl", "hex", "hexc", "spaced", "start", "startc", "starthex"]
    # the same layout, one notation per structure
    def layout(style):
        fs = []
        pos = 2
        for i, (el, w) in enumerate(((IntN("u8", 3), 3), (Int("u16"), 12), (IntN("i32", 21), 21), (En(ENUMS["E3"]), 3), (IntN("u8", 5), 5), (Int("u64"), 37))):
            fs.append(Field("f%d" % i, el, pos, w, note=style))
            pos += w + i
        return fs
    for st in styles:
        out.append(Struct("No_" + st, layout(st), endian="lsb"))
        if not st.startswith("start"):
            out.append(Struct("NoSz_" + st, layout(st), size=14, endian="msb"))
            out.append(Struct("NoLsb_" + st, layout(st), size=13, endian="lsb", numbering="lsb0"))
    # single bits
    for num in ("msb0", "lsb0"):
        out.append(Struct("NoSingle_" + num, [Field("b%d" % i, Bool(), p, 1, note="single") for i, p in enumerate((0, 3, 7, 8, 14, 22))], size=3, numbering=num))
    # arrays in every notation
    for st in styles:
        out.append(Struct("NoArr_" + st, [Field("a", IntN("u8", 3), 3, 12, 4, note=st), Field("b", Int("u16"), 17, 24, 2, note=st), Field("n", Nest(NEST[1]), 42, 12, 3, note=st)], endian="lsb"))
        if not st.startswith("start"):
            out.append(Struct("NoArrLsb_" + st, [Field("a", IntN("u8", 3), 3, 12, 4, note=st), Field("b", Int("u16"), 17, 24, 2, note=st)], endian="msb", size=6, numbering="lsb0"))
    # bytes
    for st in ("bytes", "bytesc", "bytesrev", "byteshex", "startbytes"):
        fs = [Field("a", Int("u8"), 8, 8, note=st), Field("b", Int("u32"), 16, 24, note=st), Field("c", Int("u16"), 48, 16, note=st), Field("d", Int("u8"), 64, 32, 4, note=st), Field("e", En(ENUMS["E12"]), 96, 16, note=st)]
        out.append(Struct("NoBy_" + st, fs, endian="lsb"))
        if st != "startbytes":
            out.append(Struct("NoByL_" + st, [Field(f.name, f.elem, f.start, f.width, f.count, note=st) for f in fs], endian="msb", size=15, numbering="lsb0"))
    out.append(Struct("NoBy1", [Field("a", Int("u8"), 8, 8, note="bytesingle"), Field("b", En(ENUMS["E8"]), 0, 8, note="bytesingle"), Field("c", IntN("u8", 8), 24, 8, note="bytesingle")]))
    out.append(Struct("NoBy1L", [Field("a", Int("u8"), 8, 8, note="bytesingle"), Field("b", En(ENUMS["E8"]), 0, 8, note="bytesingle"), Field("c", Int("u8"), 24, 8, note="bytesingle")], size=4, numbering="lsb0"))
    # following the previous field
    out.append(Struct("NoNext", [Field("a", IntN("u8", 3), 0, 3, note="next"), Field("b", Bool(), 3, 1, note="next"), Field("c", Int("u16"), 4, 16, note="next"),
                                 Field("d", En(ENUMS["E3"]), 20, 4, note="next"), Field("e", IntN("u8", 4), 24, 12, 3, note="next"), Field("f", Int("u8"), 36, 10, 2, note="next"),
                                 Field("r", RES(7), 46, 7, note="next"), Field("n", Nest(NEST[2]), 53, 19, note="next"), Field("z", Ca(ENUMS["E12"]), 72, 12, note="next"),
                                 Field("y", IntN("i64", 36), 84, 36, note="next")], endian="lsb"))
    out.append(Struct("NoNextMix", [Field("a", IntN("u8", 3), 5, 3, note="range"), Field("b", Bool(), 8, 1, note="next"), Field("c", Int("u16"), 20, 12, note="start"),
                                    Field("d", IntN("u8", 5), 32, 5, note="next"), Field("e", IntN("u8", 2), 64, 2, note="single" if False else "startc"), Field("g", IntN("u8", 2), 66, 2, note="next"),
                                    Field("h", Int("u8"), 48, 8, note="bytesingle"), Field("i", Int("u8"), 56, 8, note="next")], endian="msb", size=10))
    # a field may follow a later-placed one: Next follows the previously *declared* field
    out.append(Struct("NoBack", [Field("a", IntN("u8", 4), 20, 4), Field("b", IntN("u8", 4), 24, 4, note="next"), Field("c", IntN("u8", 6), 2, 6), Field("d", Int("u8"), 8, 8, note="next")]))
    # no attributes at all: everything follows from the types
    out.append(Struct("NoPlain", [Field("a", Int("u8"), 0, 8, note="next"), Field("b", Int("u16"), 8, 16, note="next"), Field("c", Int("i64"), 24, 64, note="next"), Field("d", Int("u32"), 88, 96, 3, note="next")], endian="lsb", numbering=None))
    out.append(Struct("NoSize", [Field("a", Int("u8"), 0, 8, note="next"), Field("b", IntN("u16", 9), 8, 9, note="next")], endian="lsb", numbering=None, size=5))
    # documented attribute: element_size_bytes / size_bytes
    out.append(Struct("NoSzB", [Field("a", Int("u32"), 0, 24, note="next", attrs=['size_bytes="3"'], sized=False), Field("b", Int("u16"), 24, 48, 3, note="next", attrs=['element_size_bytes="2"'], sized=False),
                                Field("c", Nest(NEST[0]), 72, 24, note="next", attrs=['element_size_bytes="3"'], sized=False), Field("d", Int("u16"), 96, 12, note="next", attrs=['size_bits="0xc"'], sized=False),
                                Field("e", Int("u8"), 108, 12, 3, note="next", attrs=['element_size_bits="4"'], sized=False)], endian="msb", numbering="msb0"))
    return out


SPELL = {"msb": ["msb", "be", "MSB", "Be", "BE", "Msb"], "lsb": ["lsb", "le", "LSB", "Le", "LE", "Lsb"]}


def endian_structs():
    out = []
    n = 0
    for de in (None, "msb", "lsb"):
        for fe in (None, "msb", "lsb"):
            if de is None and fe is None:
                continue
            for k in range(2):
                n += 1
                sd = SPELL[de][n % 6] if de else None

                def sf(i):
                    return SPELL[fe][(n + i) % 6] if fe else None
                fs, pos = [], k
                items = [(Int("u16"), 16, None), (Int("i32"), 32, None), (Int("u64"), 64, None), (IntN("u16", 11), 11, None), (IntN("i32", 23), 23, None), (IntN("u64", 47), 47, None),
                         (Int("u32"), 24, None), (En(ENUMS["E12"]), 12, None), (En(ENUMS["E16"]), 16, None), (Ca(ENUMS["E20"]), 20, None), (Int("u16"), 48, 3), (IntN("u16", 9), 27, 3), (En(ENUMS["E12"]), 24, 2),
                         (Int("u8"), 8, None), (IntN("u8", 5), 5, None), (Bool(), 1, None), (Int("u8"), 24, 3), (RES(13), 13, None), (RES(12, True), 12, None), (Nest(NEST[0]), 24, None), (Nest(NEST[2]), 24, None)]
                for i, (el, w, c) in enumerate(items):
                    fs.append(Field("f%d" % i, el, pos, w, c, endian=sf(i)))
                    pos += w
                out.append(Struct("Ed%d" % n, fs, endian=sd))
    # fields of both orders side by side under either default
    for de in ("msb", "lsb"):
        for k in range(2):
            fs, pos = [], 3 * k
            for i, w in enumerate((16, 12, 32, 24, 64, 33, 9, 17)):
                fs.append(Field("f%d" % i, Int(fit_native(w, i % 2 == 0)), pos, w, endian=(None, "lsb", "msb")[(i + k) % 3]))
                pos += w
            out.append(Struct("Em%s%d" % (de, k), fs, endian=de))
    return out


def hygiene_structs():
    """field names that collide with names the derived code uses, or might use"""
    words = ["target", "src", "bytes", "packed", "b", "_a", "_b", "_c", "unpacked", "res", "primitive_integer", "r", "wrapper", "sized_integer", "result", "out", "buf", "i", "x",
             "r#type", "r#match", "pack", "unpack", "fields", "fmt", "data", "len", "value", "bits", "output", "input", "field", "byte", "tmp", "v", "n", "shift", "mask", "idx", "val", "err", "ok", "state"]
    out = []
    for k in range(0, len(words), 6):
        ws = words[k:k + 6]
        fs, pos = [], 0
        for i, w in enumerate(ws):
            el, wd, c = [(IntN("u8", 5), 5, None), (Int("u16"), 11, None), (Int("u8"), 8, None), (IntN("u8", 3), 9, 3), (Bool(), 1, None), (Int("u32"), 32, None)][i]
            fs.append(Field(w, el, pos, wd, c))
            pos += wd
        out.append(Struct("Hy%d" % (k // 6), fs, endian="lsb"))
    # every word on every kind of field that has temporaries
    for j, w in enumerate(["target", "src", "bytes", "packed", "b", "_a", "unpacked", "res", "primitive_integer", "r", "wrapper", "sized_integer"]):
        out.append(Struct("Hz%d" % j, [Field("lead", IntN("u8", 3), 0, 3), Field(w, Int("u16"), 3, 13), Field("tail", IntN("u8", 7), 16, 7), Field("e", En(ENUMS["E3"]), 23, 3), Field("last", Int("u32"), 32, 32)], endian="msb"))
        out.append(Struct("Hw%d" % j, [Field(w, IntN("u8", 3), 0, 9, 3), Field("e", En(ENUMS["E12"]), 9, 12), Field("n", Nest(NEST[1]), 21, 4), Field("k", Int("u8"), 32, 8)], endian="lsb"))
    # an array next to fields called like its elements
    out.append(Struct("HyArr", [Field("a", IntN("u8", 4), 0, 8, 2), Field("a_0", IntN("u8", 4), 8, 4), Field("a_1", IntN("u8", 4), 12, 4), Field("a_2", Int("u8"), 16, 8)]))
    out.append(Struct("HyArr2", [Field("a_0", IntN("u8", 4), 8, 4), Field("a_1", Int("u16"), 12, 12), Field("a", IntN("u8", 4), 0, 8, 2)], endian="lsb"))
    out.append(Struct("HyArr3", [Field("a", IntN("u8", 2), 0, 6, 3), Field("a_0", IntN("u8", 2), 6, 6, 3), Field("a_0_0", IntN("u8", 4), 12, 4), Field("a_0_1", Bool(), 16, 1)]))
    return out


def reorder_structs():
    """declaration order differs from position order; gaps everywhere"""
    out = []
    out.append(Struct("Or1", [Field("c", IntN("u8", 6), 40, 6), Field("a", IntN("u8", 3), 1, 3), Field("d", Int("u16"), 18, 16), Field("b", Bool(), 9, 1)], size=8, endian="lsb"))
    out.append(Struct("Or2", [Field("z", Int("u64"), 65, 40), Field("y", IntN("i32", 31), 33, 31), Field("x", Int("i16"), 3, 14), Field("w", Bool(), 0, 1)], endian="msb"))
    out.append(Struct("Or3", [Field("z", Int("u8"), 16, 8), Field("y", Int("u8"), 8, 8), Field("x", Int("u8"), 0, 8)], size=3))
    out.append(Struct("Gap1", [Field("a", Bool(), 31, 1)], size=5))
    out.append(Struct("Gap2", [Field("a", IntN("u16", 10), 7, 10)], size=9, endian="lsb"))
    out.append(Struct("Gap3", [Field("a", IntN("u8", 2), 63, 2), Field("b", IntN("u8", 2), 7, 2)], size=16))
    return out


def random_struct(rnd, name, pool):
    endian = rnd.choice(["msb", "lsb"])
    lsb0 = rnd.random() < 0.25
    fs, pos = [], rnd.choice([0, 0, 0, rnd.randrange(0, 20)])
    n = rnd.randrange(1, 8)
    cas = 0
    for i in range(n):
        k = rnd.random()
        cnt = rnd.randrange(1, 5) if rnd.random() < 0.25 else None
        if k < 0.1:
            el, w = Bool(), 1
        elif k < 0.35:
            w = rnd.randrange(1, 65)
            el = Int(fit_native(w, rnd.random() < .5))
        elif k < 0.6:
            w = rnd.randrange(1, 65)
            el = IntN(fit_native(w, rnd.random() < .5), w)
        elif k < 0.75:
            E = rnd.choice(list(ENUMS.values()))
            lo = max(E.min_width(), MINW[E.prim])
            w = rnd.randint(lo, E.pw)
            el = En(E)
            if rnd.random() < .4 and cas < 2:
                el = Ca(E)
                cnt = None
                cas += 1
        elif k < 0.85:
            w = rnd.randrange(1, 40)
            el = Res(rnd.random() < .5, w)
        else:
            S = rnd.choice(pool)
            w = rnd.choice([low_claimed(S), 8 * S.num_bytes])
            if ceil8(w) != S.num_bytes:
                w = 8 * S.num_bytes
            el = Nest(S)
            if S.name == "NestD":
                cnt = None
                cas += 1
                if cas > 2:
                    continue
        W = w * (cnt or 1)
        if fs and rnd.random() < 0.35:
            pos += rnd.randrange(1, 13)
            nxt = False
        else:
            nxt = bool(fs)
        fe = rnd.choice([None, None, "msb", "lsb"])
        note = rnd.choice(["range", "colon", "rev", "revc", "excl", "hex", "hexc", "start", "startc"] + (["next"] * 4 if nxt else []))
        if pos % 8 == 0 and W % 8 == 0 and rnd.random() < .4:
            note = rnd.choice(["bytes", "bytesc", "bytesrev"])
        if lsb0 and note in ("start", "startc", "next"):
            note = "range"
        if note == "next" and not nxt:
            note = "range"
        fs.append(Field("f%d" % i, el, pos, W, cnt, note=note, endian=fe))
        pos += W
    if not fs:
        fs = [Field("f0", Int("u8"), 0, 8)]
        pos = 8
    if rnd.random() < .3 and not any(f.note == "next" for f in fs):
        rnd.shuffle(fs)
    size = ceil8(pos) + rnd.randrange(0, 3) if lsb0 or rnd.random() < .3 else None
    return Struct(name, fs, size=size, endian=endian, numbering="lsb0" if lsb0 else "msb0")


def random_structs(seed, n, prefix="Rn"):
    rnd = random.Random(seed)
    return [random_struct(rnd, "%s%d" % (prefix, i), NEST) for i in range(n)]


# ---- corpora of single properties
def reserved_mixed():
    """reserved fields next to, between and inside other things"""
    out = []
    for k in range(12):
        fs, pos = [], k % 3
        for i, w in enumerate(((3 * k) % 11 + 1, (5 * k) % 17 + 1, (7 * k) % 9 + 1)):
            fs.append(Field("r%d" % i, RES(w, (i + k) % 2 == 0), pos, w, note="range"))
            pos += w
            v = (4 * k + 5 * i) % 20 + 1
            fs.append(Field("v%d" % i, IntN(fit_native(v, k % 2 == 0), v), pos, v))
            pos += v
        fs.append(Field("arr", RES(k % 5 + 2, k % 2 == 1), pos, 3 * (k % 5 + 2), 3))
        pos += 3 * (k % 5 + 2)
        out.append(Struct("Rm%d" % k, fs, endian="lsb" if k % 2 else "msb"))
    inner = Struct("RmIn", [Field("_r", RES(5, True), 0, 5), Field("v", IntN("u8", 3), 5, 3), Field("_z", RES(8), 8, 8)])
    out.append(Struct("RmOut", [Field("a", IntN("u8", 3), 0, 3), Field("n", Nest(inner), 3, 16), Field("m", Nest(inner), 24, 32, 2)]))
    out.append(inner)
    return out


def enum_gap_structs():
    """enum fields among gaps and neighbours, arrays of enums, several in one structure"""
    out = []
    es = [E for E in ENUMS.values()]
    for k in range(len(es)):
        E, F = es[k], es[(k + 3) % len(es)]
        we, wf = max(E.min_width(), MINW[E.prim]), max(F.min_width(), MINW[F.prim])
        out.append(Struct("Eg%d" % k, [Field("a", En(E), 1 + k % 7, we), Field("b", Bool(), 70, 1), Field("c", En(F), 72 + k % 5, wf), Field("d", Ca(ENUMS["E3"]), 145, 5), Field("g", Bool(), 152, 4)],
                          endian="lsb" if k % 2 else "msb", size=21))
    for k, nm in enumerate(("E2", "E3", "Ei4", "E12", "E20")):
        E = ENUMS[nm]
        w = max(E.min_width(), MINW[E.prim])
        out.append(Struct("Eh%d" % k, [Field("l", IntN("u8", 3), 0, 3), Field("a", En(E), 3, 3 * w, 3), Field("b", Bool(), 3 + 3 * w + 2, 4, 4)], endian="lsb" if k % 2 else "msb"))
    return out


def macro_structs():
    """declarations of every kind, written by a macro"""
    out = []
    for i, s in enumerate((notation_structs() + notation_systematic())[::5] + endian_structs()[::3] + array_structs()[::4] + nested_structs()[::4] + hygiene_structs()[::2]):
        out.append(MacroStruct("Mc%d%s" % (i, s.name), s.fields, size=s.size, endian=s.endian, numbering=s.numbering, derive=s.derive, note=s.note))
    return out


def notation_systematic(deep=False):
    styles = ["range", "colon", "rev", "revc", "excl", "hex", "hexc", "spaced"]
    out = []
    rnd = random.Random(4711)
    n = 6 if not deep else 40
    for num in ("msb0", "lsb0"):
        for st in styles:
            for k in range(n):
                fs, pos = [], rnd.randrange(0, 9)
                for i in range(rnd.randrange(2, 6)):
                    kind = rnd.randrange(5)
                    w = rnd.randrange(1, 41)
                    if kind < 3:
                        el, c = (Int(fit_native(w, w % 2 == 0)) if kind else IntN(fit_native(w, w % 2 == 1), w)), None
                    elif kind == 3:
                        w, c = rnd.randrange(1, 13), rnd.randrange(1, 4)
                        el = Int(fit_native(w, False))
                        w *= c
                    else:
                        el, w, c = Bool(), 1, None
                    fs.append(Field("f%d" % i, el, pos, w, c, note="single" if w == 1 and c is None and rnd.random() < .5 else st))
                    pos += w + rnd.choice([0, 0, 1, 3, 9])
                size = ceil8(pos) + rnd.randrange(0, 3)
                rnd.shuffle(fs)
                out.append(Struct("Ns%s%s%d" % (num[0], st, k), fs, size=size if num == "lsb0" or rnd.random() < .5 else None, endian=rnd.choice(["msb", "lsb"]), numbering=num))
        for st in ("bytes", "bytesc", "bytesrev", "byteshex", "bytesingle"):
            for k in range(2 if not deep else 12):
                fs, pos = [], 8 * rnd.randrange(0, 12)
                for i in range(rnd.randrange(2, 5)):
                    b = 1 if st == "bytesingle" else rnd.randrange(1, 8)
                    if rnd.random() < .4 and b > 1:
                        el, c = Int("u8"), b
                    else:
                        el, c = Int(fit_native(8 * b, rnd.random() < .5)), None
                    fs.append(Field("f%d" % i, el, pos, 8 * b, c, note=st))
                    pos += 8 * b + 8 * rnd.choice([0, 0, 1, 2])
                rnd.shuffle(fs)
                out.append(Struct("Ny%s%s%d" % (num[0], st, k), fs, size=ceil8(pos) + rnd.randrange(0, 3), endian=rnd.choice(["msb", "lsb"]), numbering=num))
    # every form, with every way to write a number, in both units
    for num in ("msb0", "lsb0"):
        for unit in ("bits", "bytes"):
            for form in ("incl", "colon", "rincl", "rcolon", "excl", "single", "open", "openc"):
                if num == "lsb0" and form.startswith("open") or unit == "bytes" and form == "excl":
                    continue
                for way in ("dec", "hex", "HEX", "spaced", "mixed"):
                    u = 8 if unit == "bytes" else 1
                    fs, pos = [], u * rnd.randrange(0, 15)
                    for i in range(4):
                        if form == "single":
                            el, c, w = (Int("u8"), None, 8) if unit == "bytes" else (Bool(), None, 1)
                        else:
                            w = u * rnd.randrange(1, 8 if unit == "bytes" else 61)
                            el, c = Int(fit_native(w, rnd.random() < .5)), None
                            if i == 2:
                                w, c = u * rnd.randrange(1, 2 if unit == "bytes" else 8), rnd.randrange(2, 4)
                                el = Int(fit_native(w, False))
                                w *= c
                        fs.append(Field("f%d" % i, el, pos, w, c, note="x:%s:%s:%s" % (form, way, unit)))
                        pos = -(-(pos + w + rnd.choice([0, 0, 1, 3, 9])) // u) * u
                    size = ceil8(pos) + rnd.randrange(0, 3)
                    out.append(Struct("Nx%s%s%s%s" % (num[0], unit[1], form, way), fs, size=size if num == "lsb0" or rnd.random() < .5 else None, endian=rnd.choice(["msb", "lsb"]), numbering=num))
    # open-ended: the width comes from the type
    for k in range(6):
        for st in ("start", "startc", "starthex", "startbytes", "next"):
            fs, pos = [], 8 * rnd.randrange(0, 4) if st != "next" else 0
            for i in range(5):
                w = 8 if st == "startbytes" and False else rnd.randrange(1, 64)
                el = IntN(fit_native(w, i % 2 == 0), w)
                fs.append(Field("f%d" % i, el, pos, w, note=st if i or st != "next" else "range"))
                pos += w
                if st != "next":
                    pos += rnd.randrange(0, 9)
                if st == "startbytes":
                    pos = 8 * ceil8(pos)
            out.append(Struct("No%s%d_o" % (st, k), fs, endian="lsb"))
    return out


def excl_bytes_structs():
    """exclusive byte ranges: (as documented, as the recorded finding has it)"""
    out = []
    for i, (el, a, b, c) in enumerate(((Int("u8"), 1, 3, 2), (Int("u32"), 2, 6, None), (Int("u8"), 0, 4, 4), (Int("u64"), 1, 7, None))):
        at = ['bytes="%d..%d"' % (a, b)]
        w = 8 * (b - a)
        good = Struct("Xg%d" % i, [Field("a", el, 8 * a, w, c, note="next", attrs=at, sized=False), Field("z", Int("u8"), 56, 8)], endian="msb")
        bad = Struct("Xf%d" % i, [Field("a", el, 8 * a, w - 8, c, note="next", attrs=at, sized=False), Field("z", Int("u8"), 56, 8)], endian="msb")
        out.append((good, bad if (w - 8) % (c or 1) == 0 else None))
    return out


def endian_systematic(deep=False):
    out = []
    combos = [(d, f) for d in (None, "msb", "lsb") for f in (None, "msb", "lsb") if d or f]
    rnd = random.Random(19)
    n = 0
    for ci, (d, f) in enumerate(combos):
        for lo in range(9, 65, 8):
            fs, pos = [], rnd.randrange(0, 8)
            for w in range(lo, min(lo + 8, 65)):
                nat = fit_native(w, (w + ci) % 2 == 0)
                el = IntN(nat, w) if rnd.random() < .5 else Int(nat)
                # every third one as an array
                c = 2 if (w + ci) % 3 == 0 else None
                fs.append(Field("f%d" % len(fs), el, pos, w * (c or 1), c, endian=rnd.choice(SPELL[f]) if f else None))
                pos += w * (c or 1)
            out.append(Struct("Es%d_%d" % (ci, lo), fs, endian=rnd.choice(SPELL[d]) if d else None))
        # nothing that could depend on a byte order
        fs, pos = [], ci % 4
        for w in range(1, 9):
            fs.append(Field("f%d" % w, IntN("u8" if w % 2 else "i8", w), pos, w, endian=rnd.choice(SPELL[f]) if f else None))
            pos += w
        for el, w, c in ((Bool(), 1, None), (Int("u8"), 40, 5), (RES(11, True), 11, None), (RES(9), 9, None), (En(ENUMS["E8"]), 8, None), (En(ENUMS["E3"]), 5, None), (Nest(NEST[0]), 24, None), (Nest(NEST[2]), 48, 2), (Nest(NEST[3]), 32, None)):
            fs.append(Field("g%d" % len(fs), el, pos, w, c, endian=rnd.choice(SPELL[f]) if f else None))
            pos += w
        out.append(Struct("Et%d" % ci, fs, endian=rnd.choice(SPELL[d]) if d else None))
    if deep:
        for k in range(150):
            d = rnd.choice(["msb", "lsb"])
            fs, pos = [], rnd.randrange(8)
            for i in range(6):
                w = rnd.randrange(1, 65)
                c = rnd.choice([None, None, 2, 3])
                f = rnd.choice([None, "msb", "lsb"])
                nat = fit_native(w, rnd.random() < .5)
                fs.append(Field("f%d" % i, rnd.choice([IntN(nat, w), Int(nat)]), pos, w * (c or 1), c, endian=rnd.choice(SPELL[f]) if f else None))
                pos += w * (c or 1)
            out.append(Struct("Ex%d" % k, fs, endian=rnd.choice(SPELL[d])))
    return out


def array_systematic(deep=False):
    out = []
    rnd = random.Random(27)
    p = Packer("As", "lsb", 3)
    q = Packer("At", "msb", 3)
    for w in range(1, 65, 1 if deep else 3):
        nat = fit_native(w, w % 2 == 0)
        for t in (p, q):
            t.add(rnd.choice([IntN(nat, w), Int(nat)]), w * (2 + w % 3), rnd.randrange(8), 2 + w % 3)
    for el, w in ((Bool(), 1), (En(ENUMS["E3"]), 3), (En(ENUMS["E16"]), 16), (En(ENUMS["Ei4"]), 6), (Nest(NEST[1]), 4), (Nest(NEST[4]), 88), (RES(5, True), 5)):
        for al in range(0, 8, 1 if deep else 3):
            for c in (1, 3, 11):
                p.add(el, w * c, al, c)
    p.close()
    q.close()
    return p.out + q.out


def size_structs():
    out = []
    for n in list(range(1, 34)) + [63, 64, 65, 72, 100, 127, 128, 129, 255, 256, 257, 500, 1000]:
        # highest claimed bit n-1, by the last, the first or the middle field of the declaration
        w = min(n, 5)
        fs = [Field("t", IntN("u8", w), n - w, w)]
        if n > 12:
            fs.append(Field("m", IntN("u8", 3), n - 12, 3))
            fs.insert(n % 3 % 2, Field("l", Bool(), 0, 1))
        out.append(Struct("Sz%d" % n, fs))
        out.append(Struct("Sx%d" % n, fs, size=ceil8(n) + n % 4))
    return out


def slice_structs():
    ss = bool_structs() + enum_structs()[::3] + enum_structs(True)[::3] + reserved_structs()[::4] + nested_structs()[::2] + array_structs()[::3] + large_structs() + reorder_structs() + width_structs()[::11]
    return ss + [Struct("SlOne", [Field("a", Int("u8"), 0, 8)]), Struct("SlBit", [Field("a", Bool(), 7, 1)])]
