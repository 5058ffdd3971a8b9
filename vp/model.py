"""Declarations, their Rust text, and an independent statement of the layout each of them promises.

An expected bit is ("c", 0|1), ("l", input name, bit) or ("f", function(Lanes) -> lanes, input bits, [(tuple, values to try)]).
"""
import re

C0, C1 = ("c", 0), ("c", 1)
NATIVE = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}


def signed(native):
    return native[0] == "i"


def ceil8(n):
    return (n + 7) // 8


def fit_native(w, sg):
    for n in (8, 16, 32, 64):
        if w <= n:
            return ("i" if sg else "u") + str(n)


class Enum:
    def __init__(self, name, prim, variants, explicit=None, repr=None, derive=None, suffix=None, attrs=(), lits=None, derives="Clone, Copy, Debug, PartialEq"):
        """variants: [(name, discriminant)]; explicit: the indices that get a written discriminant (default: all)"""
        self.name, self.prim, self.variants = name, prim, list(variants)
        self.explicit = set(range(len(self.variants))) if explicit is None else set(explicit)
        self.repr, self.attrs = repr, attrs
        self.derive = derive if derive is not None else "PrimitiveEnum_" + prim
        self.suffix = suffix or {}
        self.lits = lits or {}
        self.derives = derives

    @property
    def pw(self):
        return NATIVE[self.prim]

    @property
    def sg(self):
        return signed(self.prim)

    @property
    def tag_width(self):
        if len(self.variants) == 1:
            return 0
        if self.repr:
            return NATIVE[self.repr]
        lo = min(d for _, d in self.variants)
        hi = max(d for _, d in self.variants)
        for n in (8, 16, 32, 64):
            if (lo >= 0 and hi < 1 << n) or (lo < 0 and lo >= -(1 << (n - 1)) and hi < 1 << (n - 1)):
                return n

    def min_width(self):
        lo = min(d for _, d in self.variants)
        hi = max(d for _, d in self.variants)
        for w in range(1, 65):
            if self.sg and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
                return w
            if not self.sg and hi < 1 << w:
                return w

    def fits(self, d, w):
        return (-(1 << (w - 1)) <= d < 1 << (w - 1)) if self.sg else 0 <= d < 1 << w

    def valid(self, w):
        """values of a w bit field that name a variant"""
        return sorted({d & ((1 << w) - 1) for _, d in self.variants if self.fits(d, w)})

    def decl(self):
        out = []
        for i, (n, d) in enumerate(self.variants):
            out.append("    %s%s," % (n, " = %s%s" % (self.lits.get(i, d), self.suffix.get(i, "")) if i in self.explicit else ""))
        r = "#[repr(%s)]\n" % self.repr if self.repr else ""
        return "#[derive(%s, %s)]\n%s%spub enum %s {\n%s\n}\n" % (
            self.derive, self.derives, r, "".join(a + "\n" for a in self.attrs), self.name, "\n".join(out))


def enum_number_bits(E, path, w):
    """the number of the enum value at `path` as w expected bits, lsb first"""
    if len(E.variants) == 1:
        d = E.variants[0][1]
        return [("c", (d >> k) & 1) for k in range(w)]
    tw = E.tag_width
    leaves = [(path, tw - 1 - i) for i in range(tw)]
    tags = [d & ((1 << tw) - 1) for _, d in E.variants]
    out = []
    for k in range(w):
        on = [d & ((1 << tw) - 1) for _, d in E.variants if (d >> k) & 1]

        def fn(L, on=on):
            return L.member([L.a.get(l, 0) for l in leaves], [(t, t) for t in on]) if on else 0
        out.append(("f", fn, frozenset(leaves), [(leaves, tags)]))
    return out


def catchall_number_bits(E, path, w):
    kn = enum_number_bits(E, path + ".Enum.0", w)
    var = [(path + "#", 7 - i) for i in range(8)]
    out = []
    for k in range(w):
        raw = (path + ".CatchAll.0", k) if k < E.pw else (path + ".CatchAll.0", E.pw - 1)
        e = kn[k]

        def fn(L, e=e, raw=raw):
            isenum = L.member([L.a.get(l, 0) for l in var], [(0, 0)])
            return (ev(L, e) & isenum) | (L.a.get(raw, 0) & (isenum ^ L.full))
        sup = {raw} | set(var)
        ex = [(var, [0, 1])]
        if e[0] == "f":
            sup |= e[2]
            ex += e[3]

        def spec(fixed, e=e, raw=raw):
            k = [fixed.get(l) for l in var]
            if None in k:
                return None
            return e if not any(k) else ("l",) + raw
        out.append(("f", fn, frozenset(sup), ex, spec))
    return out


def ev(L, e):
    if e[0] == "c":
        return L.full if e[1] else 0
    if e[0] == "l":
        return L.a.get((e[1], e[2]), 0)
    return e[1](L)


def esup(e):
    return () if e[0] == "c" else ((e[1], e[2]),) if e[0] == "l" else e[2]


def order(w, endian):
    """positions of a w bit value's bits (lsb first numbering) in the order they are stored, first stored bit first"""
    if endian == "lsb" and w > 8:
        out = []
        full = w // 8
        for i in range(full):
            out += [8 * i + 7 - k for k in range(8)]
        out += [w - 1 - k for k in range(w - 8 * full)]
        return out
    return [w - 1 - k for k in range(w)]


def ext(bits, n, sg):
    """lsb first, extended or cut to n bits"""
    top = bits[-1] if sg and bits else C0
    return (list(bits) + [top] * n)[:n]


# ---- element kinds -------------------------------------------------------------------------------------------------
class Elem:
    enum_ty = False
    has_endian = False

    def builtin(self):
        return None


class Bool(Elem):
    rust = "bool"

    def builtin(self):
        return 1

    def pack(self, path, w, endian):
        v = [("l", path, 0)] + [C0] * (w - 1)
        return v[::-1][-w:]

    def unpack(self, bits, w, endian):
        v = bits[::-1]
        return ("bool", v[0]), ([(v, [(0, 1)])] if w > 1 else [])

    def rt(self, path, w):
        return ("bool", ("l", path, 0))


class Int(Elem):
    """a native integer"""
    has_endian = True

    def __init__(self, native):
        self.native = native
        self.rust = native
        self.n = NATIVE[native]
        self.sg = signed(native)

    def builtin(self):
        return self.n

    def src(self, path):
        return [("l", path, k) for k in range(self.n)]

    def pack(self, path, w, endian):
        v = ext(self.src(path), w, self.sg)
        return [v[i] for i in order(w, endian)]

    def unpack(self, bits, w, endian):
        v = [None] * w
        for b, i in zip(bits, order(w, endian)):
            v[i] = b
        return ("int", ext(v, self.n, self.sg)), []

    def rt(self, path, w):
        return ("int", ext(self.src(path)[:w], self.n, self.sg))


class IntN(Int):
    def __init__(self, native, bits):
        Int.__init__(self, native)
        self.bits = bits
        self.rust = "Integer<%s, packed_bits::Bits::<%d>>" % (native, bits)

    def builtin(self):
        return self.bits

    def src(self, path):
        return ext([("l", path, k) for k in range(self.bits)], self.n, self.sg)


class En(Elem):
    enum_ty = True
    has_endian = True

    def __init__(self, E):
        self.E = E
        self.rust = E.name
        self.n, self.sg = E.pw, E.sg

    def pack(self, path, w, endian):
        v = enum_number_bits(self.E, path, w)
        return [v[i] for i in order(w, endian)]

    def unpack(self, bits, w, endian):
        v = [None] * w
        for b, i in zip(bits, order(w, endian)):
            v[i] = b
        return ("enum", self.E, ext(v, self.n, self.sg)), [(v, [(x, x) for x in self.E.valid(w)])]

    def rt(self, path, w):
        return ("enum", self.E, ext(enum_number_bits(self.E, path, w), self.n, self.sg))


class Ca(En):
    def __init__(self, E):
        En.__init__(self, E)
        self.rust = "EnumCatchAll<%s>" % E.name

    def pack(self, path, w, endian):
        v = catchall_number_bits(self.E, path, w)
        return [v[i] for i in order(w, endian)]

    def unpack(self, bits, w, endian):
        r, _ = En.unpack(self, bits, w, endian)
        return ("catchall",) + r[1:], []

    def rt(self, path, w):
        return ("catchall", self.E, ext(catchall_number_bits(self.E, path, w), self.n, self.sg))


class Res(Elem):
    def __init__(self, one, bits):
        self.one, self.bits = one, bits
        self.rust = "Reserved%s<packed_bits::Bits::<%d>>" % ("One" if one else "Zero", bits)

    def builtin(self):
        return self.bits

    def pack(self, path, w, endian):
        # a whole number of bytes of the fill value, of which the field takes the low-order bits
        return [C1 if self.one else C0] * w

    def unpack(self, bits, w, endian):
        return ("unit",), []

    def rt(self, path, w):
        return ("unit",)


class Nest(Elem):
    def __init__(self, S):
        self.S = S
        self.rust = S.name

    def pack(self, path, w, endian):
        b = self.S.expect_pack(path)
        return b[len(b) - w:]

    def unpack(self, bits, w, endian):
        full = [C0] * (8 * self.S.num_bytes - w) + list(bits)
        return self.S.expect_unpack(full)

    def rt(self, path, w):
        return self.S.expect_rt(path)


class Field:
    def __init__(self, name, elem, start, width, count=None, note="range", endian=None, attrs=(), sized=True, ty=None):
        """width: of the whole field; count: number of array elements or None"""
        self.name, self.elem, self.start, self.width, self.count = name, elem, start, width, count
        self.note, self.endian, self.attrs, self.sized, self.ty = note, endian, list(attrs), sized, ty

    @property
    def path_name(self):
        return self.name[2:] if self.name.startswith("r#") else self.name

    def elems(self):
        """[(suffix, element kind, first bit, width)]"""
        if self.count is None:
            return [("", self.elem, self.start, self.width)]
        w = self.width // self.count
        return [("[%d]" % i, self.elem, self.start + i * w, w) for i in range(self.count)]

    def rust_ty(self):
        return self.ty or (self.elem.rust if self.count is None else "[%s; %d]" % (self.elem.rust, self.count))


class Struct:
    def __init__(self, name, fields, size=None, endian=None, numbering="msb0", derive="PackedStruct, Clone, Copy, Debug, PartialEq", note=None):
        """size: the written size_bytes or None; endian: the structure's default or None"""
        self.name, self.fields, self.size, self.endian, self.numbering, self.derive = name, fields, size, endian, numbering, derive
        self.note = note

    @property
    def num_bits(self):
        return self.size * 8 if self.size is not None else max(f.start + f.width for f in self.fields)

    @property
    def num_bytes(self):
        return ceil8(self.num_bits)

    def field_endian(self, f, w):
        def norm(e):
            return {"be": "msb", "le": "lsb"}.get(e.lower(), e.lower()) if e else None
        return norm(f.endian) or norm(self.endian) or "msb"

    # ---- the promise
    def expect_pack(self, path):
        out = [C0] * (8 * self.num_bytes)
        for f in self.fields:
            for suf, el, s, w in f.elems():
                out[s:s + w] = el.pack(path + "." + f.path_name + suf, w, self.field_endian(f, w))
        return out

    def owner(self):
        """bit -> the field (element) that claims it"""
        out = [None] * (8 * self.num_bytes)
        for f in self.fields:
            for suf, el, s, w in f.elems():
                for i in range(s, s + w):
                    out[i] = f.name + suf
        return out

    def expect_unpack(self, bits):
        """bits: the packed bits, first bit first -> (value, constraints)"""
        val, cons = {}, []
        for f in self.fields:
            vs = []
            for suf, el, s, w in f.elems():
                v, c = el.unpack(bits[s:s + w], w, self.field_endian(f, w))
                vs.append(v)
                cons += [(f.name + suf,) + x[-2:] for x in c]
            val[f.path_name] = vs[0] if f.count is None else ("array", vs)
        return ("struct", self.name, val), cons

    def expect_rt(self, path):
        val = {}
        for f in self.fields:
            vs = [el.rt(path + "." + f.path_name + suf, w) for suf, el, s, w in f.elems()]
            val[f.path_name] = vs[0] if f.count is None else ("array", vs)
        return ("struct", self.name, val)

    # ---- the text
    def position(self, f):
        """attribute text of a field's position"""
        a, b, n = f.start, f.start + f.width - 1, f.note
        if self.numbering == "lsb0":
            t = 8 * self.size - 1
            a, b = t - a, t - b
        size = []
        if f.sized and (n == "next" or n.startswith(("start", "+", "x:open"))):
            bw = f.elem.builtin()
            per = f.width if f.count is None else f.width // f.count
            if bw != per or f.elem.enum_ty:
                if f.count is None:
                    size = ['size_bits="%d"' % per]
                elif f.count == 1:
                    size = ['size_bits="%d"' % per]
                else:
                    size = ['element_size_bits="%d"' % per]
        if n.startswith("x:"):
            # x:form:way of writing numbers:unit
            _, form, num, unit = n.split(":")
            lo, hi, at = (x if unit == "bits" else x // 8 for x in (min(a, b), max(a, b), a))
            w = {"dec": str, "hex": lambda x: "0x%x" % x, "HEX": lambda x: "0X%X" % x, "spaced": lambda x: "  %d " % x, "mixed": lambda x: (" 0x%X" if x % 2 else "%d") % x}[num]
            v = {"incl": w(lo) + "..=" + w(hi), "colon": w(lo) + ":" + w(hi), "rincl": w(hi) + "..=" + w(lo), "rcolon": w(hi) + ":" + w(lo), "excl": w(lo) + ".." + w(hi + 1),
                 "single": w(at), "open": w(at) + "..", "openc": w(at) + ":"}[form]
            return ["%s=\"%s\"" % (unit, v)] + size
        t = {
            "next": None,
            "range": "bits=\"%d..=%d\"" % (min(a, b), max(a, b)),
            "colon": "bits=\"%d:%d\"" % (min(a, b), max(a, b)),
            "rev": "bits=\"%d..=%d\"" % (max(a, b), min(a, b)),
            "revc": "bits=\"%d:%d\"" % (max(a, b), min(a, b)),
            "excl": "bits=\"%d..%d\"" % (min(a, b), max(a, b) + 1),
            "single": "bits=\"%d\"" % a,
            "start": "bits=\"%d..\"" % a,
            "startc": "bits=\"%d:\"" % a,
            "starthex": "bits=\"0x%x..\"" % a,
            "hex": "bits=\"0x%x..=0x%X\"" % (min(a, b), max(a, b)),
            "hexc": "bits=\"0X%X:0x%x\"" % (min(a, b), max(a, b)),
            "spaced": "bits=\" %d ..= %d \"" % (min(a, b), max(a, b)),
            "bytes": "bytes=\"%d..=%d\"" % (min(a, b) // 8, max(a, b) // 8),
            "bytesc": "bytes=\"%d:%d\"" % (min(a, b) // 8, max(a, b) // 8),
            "bytesrev": "bytes=\"%d:%d\"" % (max(a, b) // 8, min(a, b) // 8),
            "bytesingle": "bytes=\"%d\"" % (a // 8),
            "byteshex": "bytes=\"0x%x:0x%x\"" % (min(a, b) // 8, max(a, b) // 8),
            "startbytes": "bytes=\"%d..\"" % (a // 8),
        }[n]
        return ([t] if t else []) + size

    def decl(self):
        at = []
        if self.numbering:
            at.append('bit_numbering="%s"' % self.numbering)
        if self.size is not None:
            at.append('size_bytes="%d"' % self.size)
        if self.endian:
            at.append('endian="%s"' % self.endian)
        out = ["#[derive(%s)]" % self.derive]
        if at:
            out.append("#[packed_struct(%s)]" % ", ".join(at))
        out.append("pub struct %s {" % self.name)
        for f in self.fields:
            fa = self.position(f)
            if f.elem.enum_ty:
                fa.append('ty="enum"')
            if f.endian:
                fa.append('endian="%s"' % f.endian)
            fa += f.attrs
            if fa:
                out.append("    #[packed_field(%s)]" % ", ".join(fa))
            out.append("    pub %s: %s," % (f.name, f.rust_ty()))
        out.append("}\n")
        return "\n".join(out)

    def nested(self):
        """structures and enums this one needs, dependencies first"""
        out = []
        for f in self.fields:
            if isinstance(f.elem, Nest):
                for x in f.elem.S.nested() + [f.elem.S]:
                    if x not in out:
                        out.append(x)
            if isinstance(f.elem, En) and f.elem.E not in out:
                out.append(f.elem.E)
        return out


class MacroStruct(Struct):
    """the same declaration, written by a macro_rules macro which is given the names and the attribute values"""

    def decl(self):
        text, par, arg = Struct.decl(self), [], []

        def sub(kind, v):
            par.append("$m%d:%s" % (len(par), kind))
            arg.append(v)
            return "$m%d" % (len(arg) - 1)
        text = re.sub(r'="[^"]*"', lambda m: "=" + sub(("expr", "literal", "tt")[len(par) % 3], m.group(0)[1:]), text)
        text = re.sub(r"(?m)^(    pub )([\w#]+):", lambda m: m.group(1) + sub("ident", m.group(2)) + ":", text)
        return "macro_rules! make_%s { (%s) => {\n%s} }\nmake_%s! { %s }\n" % (self.name, ", ".join(par), text, self.name, ", ".join(arg))


HEADER = "#![allow(warnings)]\nextern crate packed_struct;\nextern crate packed_struct_codegen;\nuse packed_struct::prelude::*;\n\n"
FNS = {
    "pack": "pub fn w_{n}_pack(x: &{t}) -> Result<<{t} as PackedStruct>::ByteArray, PackingError> {{ x.pack() }}\n",
    "unpack": "pub fn w_{n}_unpack(b: &<{t} as PackedStruct>::ByteArray) -> Result<{t}, PackingError> {{ <{t} as PackedStruct>::unpack(b) }}\n",
    "rt": "pub fn w_{n}_rt(x: &{t}) -> Result<{t}, PackingError> {{ <{t} as PackedStruct>::unpack(&x.pack()?) }}\n",
    "size": "pub fn w_{n}_size(x: &{t}) -> (usize, usize, Result<usize, PackingError>, Result<usize, PackingError>) {{ (<{t} as packed_struct::PackedStructInfo>::packed_bits(), "
            "core::mem::size_of::<<{t} as PackedStruct>::ByteArray>(), <{t} as PackedStructSlice>::packed_bytes_size(Some(x)), <{t} as PackedStructSlice>::packed_bytes_size(None)) }}\n",
    "spack": "pub fn w_{n}_spack(x: &{t}, o: &mut [u8]) -> Result<(), PackingError> {{ x.pack_to_slice(o) }}\n",
    "sunpack": "pub fn w_{n}_sunpack(b: &[u8]) -> Result<{t}, PackingError> {{ <{t} as PackedStructSlice>::unpack_from_slice(b) }}\n",
    "vpack": "pub fn w_{n}_vpack(x: &{t}) -> Result<Vec<u8>, PackingError> {{ x.pack_to_vec() }}\n",
}


def render(structs, fns):
    """one witness crate: the declarations and the functions to analyse"""
    out = [HEADER]
    done = set()
    for s in structs:
        for x in s.nested() + [s]:
            if x.name not in done:
                done.add(x.name)
                out.append(x.decl())
        for f in fns:
            out.append(FNS[f].format(n=s.name, t=s.name))
    return "\n".join(out)
