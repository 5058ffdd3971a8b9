"""Checks of derived enums (C09, C10, C11, C12)."""
import random
from . import corpus as C, model as M, verify as V, runner as R, terms as T
from .model import *
from .checks_struct import lsb
from .checks_lib import Sheet, verify_value, pairs_compile

USE = "use packed_struct::{PrimitiveEnumStaticStr, PrimitiveEnumDynamicStr};\n"
FMT = "pub fn vp_fmt_str(f: &mut core::fmt::Formatter, s: &str) -> core::fmt::Result { f.write_str(s) }\npub fn vp_to_string<T: core::fmt::Display>(x: &T) -> String { format!(\"{}\", x) }\n"


def detected(variants):
    """the integer type that represents all numbers: signed exactly when one is negative, the smallest width"""
    lo, hi = min(d for _, d in variants), max(d for _, d in variants)
    for n in (8, 16, 32, 64):
        if lo < 0 and lo >= -(1 << (n - 1)) and hi < 1 << (n - 1):
            return "i%d" % n
        if lo >= 0 and hi < 1 << n:
            return "u%d" % n


def literal(d, form):
    a = abs(d)
    t = {"dec": "%d", "hex": "0x%x", "HEX": "0x%X", "oct": "0o%o"}.get(form)
    s = t % a if t else ("0b" + format(a, "b") if form == "bin" else "{:_}".format(a))
    return ("-" if d < 0 else "") + s


FORMS = ["dec", "hex", "HEX", "oct", "bin", "sep"]


def random_enum(rnd, name, prim, k):
    n = NATIVE[prim]
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(prim) else (0, min((1 << n) - 1, (1 << 63) - 1))
    used, vs, ex, lits = set(), [], set(), {}
    pool = [lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, hi // 2 + 1, 0x10, 0x20, 100]
    prev = None
    for i in range(k):
        d = None
        if rnd.random() < .35:
            d = 0 if prev is None else prev + 1
            if d > hi or d in used:
                d = None
        if d is None:
            for _ in range(50):
                d = rnd.choice(pool) if rnd.random() < .3 else rnd.randint(lo, hi) if rnd.random() < .6 else rnd.randint(max(lo, -40), min(hi, 120))
                if d not in used:
                    break
            if d in used:
                break
            ex.add(i)
            lits[i] = literal(d, rnd.choice(FORMS))
        used.add(d)
        vs.append(("V%d" % i, d))
        prev = d
    if name.endswith("D"):
        pt = detected(vs)
        return Enum(name, pt, vs, explicit=ex, lits=lits, derive="PrimitiveEnum")
    return Enum(name, prim, vs, explicit=ex, lits=lits)


def corpus(run, tag=""):
    rnd = random.Random(run.seed * 31 + 9)
    out = list(C.ENUMS.values())
    out += [
        Enum("Im0", "u8", [("A", 0), ("B", 1), ("C", 2)], explicit=[]),
        Enum("Im1", "i8", [("A", -2), ("B", -1), ("C", 0), ("D", 1), ("E", 100), ("F", 101)], explicit=[0, 4]),
        Enum("Im2", "u16", [("A", 255), ("B", 256), ("C", 3), ("D", 4)], explicit=[0, 2]),
        Enum("Im3", "i16", [("A", -129), ("B", -128), ("C", -127), ("D", 300)], explicit=[0, 3]),
        Enum("Im4", "u32", [("A", 0xffff), ("B", 0x10000), ("C", 0), ("D", 1)], explicit=[0, 2]),
        Enum("Im5", "i64", [("A", -1), ("B", 0), ("C", 1), ("D", 1 << 40), ("E", (1 << 40) + 1)], explicit=[0, 3]),
        Enum("Im6", "u64", [("A", 0xffffffff), ("B", 0x100000000), ("C", 5)], explicit=[0, 2]),
        Enum("Im7", "u8", [("A", 0), ("B", 7), ("C", 8), ("D", 1)], explicit=[1, 3]),
        Enum("Sw", "i32", [("A", 3), ("B", -3), ("C", 2), ("D", -2), ("E", 0)]),
        Enum("Mg", "i8", [("A", 1), ("B", -1), ("C", 127), ("D", -127), ("E", -128)]),
        Enum("U64", "u64", [("A", 0xffffffffffffffff), ("B", 0x8000000000000000), ("C", 1)], repr="u64"),
        Enum("I64", "i64", [("A", -0x8000000000000000), ("B", 0x7fffffffffffffff), ("C", -1)], lits={0: "-0x8000_0000_0000_0000"}),
        Enum("R8", "u8", [("A", 200), ("B", 201), ("C", 5)], repr="u8", explicit=[0, 2]),
        Enum("Ri8", "i8", [("A", -128), ("B", 127), ("C", 0)], repr="i8"),
        Enum("R16", "u16", [("A", 65535), ("B", 1)], repr="u16", suffix={0: "u16"}),
        Enum("Ri16", "i16", [("A", -300), ("B", -299), ("C", 7)], repr="i16", explicit=[0, 2], suffix={0: "i16", 2: "i16"}),
        Enum("Ri32", "i32", [("A", -70000), ("B", 5)], repr="i32", suffix={1: "i32"}),
        Enum("Ru32", "u64", [("A", 70000), ("B", 5)], repr="u32"),
        Enum("Wide8", "i64", [("A", 1), ("B", -1)]),
        Enum("Wide16", "u64", [("A", 1), ("B", 200)]),
        Enum("All8", "u8", [("N%d" % i, i) for i in range(256)], explicit=[]),
        Enum("AllI8", "i8", [("N%d" % i, i - 128) for i in range(256)], explicit=[0]),
        Enum("Big300", "u16", [("N%d" % i, i) for i in range(300)], explicit=[]),
        Enum("Big290", "i32", [("N%d" % i, 37 * i - 9000 if i % 9 else 70000 * (i - 200) + 1) for i in range(290)], derive="PrimitiveEnum"),
        Enum("One0", "u8", [("Only", 0)], explicit=[]),
        Enum("OneN", "i16", [("Only", -300)]),
        Enum("Dt0", "u8", [("A", 0), ("B", 255)], derive="PrimitiveEnum"),
        Enum("Dt1", "i16", [("A", -1), ("B", 200)], derive="PrimitiveEnum"),
        Enum("Dt2", "u32", [("A", 65535), ("B", 65536)], derive="PrimitiveEnum", explicit=[0]),
        Enum("Dt3", "i64", [("A", -1), ("B", 0x80000000)], derive="PrimitiveEnum"),
        Enum("Dt4", "u64", [("A", 0x100000000), ("B", 2)], derive="PrimitiveEnum"),
    ]
    sizes = [2, 3, 5, 9, 17, 33]
    for r in range(12 if run.thorough else 3):
        for prim in NATIVE:
            for d in ("", "D"):
                out.append(random_enum(rnd, "Q%s_%s_%d%s" % (tag, prim, r, d), prim, rnd.choice(sizes)))
    return [e for e in out if len(e.variants) > 0]


def enum_sheet(es, n=12):
    s = Sheet(M.HEADER + USE + FMT, n)
    for i, e in enumerate(es):
        s.txt[i % n].append(e.decl())
    return s


def number_con(E, path):
    pm = (1 << E.pw) - 1
    return ("number", lsb(path, E.pw), [(d & pm, d & pm) for _, d in E.variants])


def c09(run):
    es = corpus(run)
    s = enum_sheet(es)
    for i, E in enumerate(es):
        n, P = E.name, E.prim
        T_ = "<%s as PrimitiveEnum>" % n
        num = enum_number_bits(E, "x", E.pw)
        k = n.lower() + "_"
        s.add(k + "to", "(x: %s) -> %s" % (n, P), T_ + "::to_primitive(&x)", verify_value, ("the number of a variant of " + n, ("int", num)), i)
        s.add(k + "cast", "(x: %s) -> %s" % (n, P), "x as %s" % P, verify_value, ("the discriminant of a variant of " + n, ("int", num)), i)
        s.add(k + "from", "(x: %s) -> Option<%s>" % (P, n), T_ + "::from_primitive(x)", V.verify_option, ("converting a number to " + n, ("enum", E, lsb("x", E.pw)), [number_con(E, "x")]), i)
        s.add(k + "rt", "(x: %s) -> Option<%s>" % (n, n), T_ + "::from_primitive(%s::to_primitive(&x))" % T_, V.verify_option, ("a variant of %s through its number" % n, ("enum", E, num), []), i)
        s.add(k + "nrt", "(x: %s) -> Option<%s>" % (P, P), T_ + "::from_primitive(x).map(|e| %s::to_primitive(&e))" % T_, V.verify_option, ("a number through " + n, ("int", lsb("x", E.pw)), [number_con(E, "x")]), i)
    n, _ = s.run(run, "enum")
    run.require("enum conversions analysed", n, 5 * 80)
    run.stats.add("enums", len(es))
    run.samples += [{"declaration": e.decl()} for e in es[14:60:15]]
    return run.finish("translation_validation", "Enums with explicit, implicit, negative and mixed discriminants over all eight primitive types, given and detected (all 256 values of u8 and i8 included): the derived conversions are interpreted for all numbers and all variants at once. "
                      "Rule: to_primitive is the discriminant (also compared with the compiler's own cast), from_primitive is Some exactly on the declared numbers, with the variant of that number.", {"programs": len(es), "disagreements_checked": run.stats.get("bits compared", 0)})


def c10(run):
    es = corpus(run, "c")
    s = enum_sheet(es)
    for i, E in enumerate(es):
        n, P = E.name, E.prim
        CA = "EnumCatchAll<%s>" % n
        T_ = "<%s as PrimitiveEnum>" % CA
        k = n.lower() + "_"
        x = lsb("x", E.pw)
        cn = catchall_number_bits(E, "x", E.pw)
        en = enum_number_bits(E, "x", E.pw)
        s.add(k + "from", "(x: %s) -> Option<%s>" % (P, CA), T_ + "::from_primitive(x)", V.verify_option, ("converting a number to " + CA, ("catchall", E, x), []), i)
        s.add(k + "to", "(x: %s) -> %s" % (CA, P), T_ + "::to_primitive(&x)", verify_value, ("the number of " + CA, ("int", cn)), i)
        s.add(k + "rt", "(x: %s) -> Option<%s>" % (P, P), T_ + "::from_primitive(x).map(|e| %s::to_primitive(&e))" % T_, V.verify_option, ("a number through " + CA, ("int", x), []), i)
        s.add(k + "crt", "(x: %s) -> Option<%s>" % (CA, P), T_ + "::from_primitive(%s::to_primitive(&x)).map(|e| %s::to_primitive(&e))" % (T_, T_), V.verify_option, ("a catch-all through its number: " + CA, ("int", cn), []), i)
        s.add(k + "cv", "(x: %s) -> Option<%s>" % (CA, CA), T_ + "::from_primitive(%s::to_primitive(&x))" % T_, V.verify_option, ("a catch-all through its number: " + CA, ("catchall", E, cn), []), i)
        s.add(k + "e1", "(x: %s) -> Option<%s>" % (n, CA), "Some(EnumCatchAll::from_enum(x))", V.verify_option, (CA + "::from_enum", ("catchall", E, en), []), i)
        s.add(k + "e2", "(x: %s) -> Option<%s>" % (n, CA), "Some(x.into())", V.verify_option, (CA + " from its enum", ("catchall", E, en), []), i)
        s.add(k + "eq", "(x: %s, y: %s) -> bool" % (CA, CA), "x == y", verify_eq, ("equality of " + CA, E, False), i)
        s.add(k + "ne", "(x: %s, y: %s) -> bool" % (CA, CA), "x != y", verify_eq, ("inequality of " + CA, E, True), i)
        s.add(k + "cl", "(x: %s) -> %s" % (CA, P), T_ + "::to_primitive(&x.clone())", verify_value, ("a clone of " + CA, ("int", cn)), i)
    n, _ = s.run(run, "ca")
    run.require("catch-all functions analysed", n, 10 * 80)
    run.stats.add("enums", len(es))
    run.samples += [{"type": "EnumCatchAll", "declaration": e.decl()} for e in es[14:60:15]]
    return run.finish("translation_validation", "The catch-all wrapper over the enums of C09: from_primitive, to_primitive, their compositions both ways, From, from_enum, equality and inequality, for all numbers and all values at once. "
                      "Rule: the known variant for a declared number, the number itself otherwise, and back; equal exactly when the numbers are equal.", {"programs": len(es), "disagreements_checked": run.stats.get("bits compared", 0)})


def verify_eq(cx, what, E, neg):
    """the result is whether the numbers of x and y are equal"""
    if not cx.problems():
        return
    a, b = catchall_number_bits(E, "x", E.pw), catchall_number_bits(E, "y", E.pw)

    def fn(L):
        d = 0
        for p, q in zip(a, b):
            d |= ev(L, p) ^ ev(L, q)
        return d if neg else d ^ L.full
    sup = frozenset(l for e in a + b for l in esup(e))
    # values to try: equal numbers in all four forms, and numbers that differ in one bit
    tags = [d & ((1 << E.tag_width) - 1) for _, d in E.variants][:40] if E.tag_width else []
    raw = lambda n: [(n + ".CatchAll.0", E.pw - 1 - i) for i in range(E.pw)]
    tag = lambda n: [(n + ".Enum.0", E.tag_width - 1 - i) for i in range(E.tag_width)]
    var = lambda n: [(n + "#", 7 - i) for i in range(8)]
    pm = (1 << E.pw) - 1
    combos = []
    for v in [d & pm for _, d in E.variants][:40] + [0, pm, 1, 1 << (E.pw - 1)]:
        combos += [(v, v)] + [(v, v ^ (1 << j)) for j in (0, E.pw // 2, E.pw - 1)]
    ls = raw("x") + raw("y")
    vals = [x << E.pw | y for x, y in combos]
    for p in cx.e["parts"]:
        bit = T.int_bits(p["ret"])[2][0]
        fx = cx.t.guard_fixed(p["g"])
        kinds = [fx.get((n + "#", 0)) for n in ("x", "y")]
        extra = [(ls, vals)]
        for n, o in (("x", "y"), ("y", "x")):
            if tags:
                extra.append((tag(n), tags))
        if kinds[0] == 0 and kinds[1] == 1 and tags:
            extra = [(tag("x") + raw("y"), [(t << E.pw) | ((d ^ k) & pm) for t, (_, d) in zip(tags, E.variants) for k in (0, 1, 1 << (E.pw - 1))])]
        elif kinds[0] == 1 and kinds[1] == 0 and tags:
            extra = [(tag("y") + raw("x"), [(t << E.pw) | ((d ^ k) & pm) for t, (_, d) in zip(tags, E.variants) for k in (0, 1, 1 << (E.pw - 1))])]
        elif kinds == [0, 0] and tags:
            w = E.tag_width
            extra = [(tag("x") + tag("y"), [t << w | u for t in tags[:16] for u in [t] + tags[:6]])]
        elif None in kinds:
            extra.append((var("x") + var("y"), [0, 1, 256, 257]))
        cx.same(p["g"], [("result", bit, ("f", fn, sup, extra))], "equality", what)


# ---- names

NAMED = [
    ("Nm1", [("A", 0), ("LongName", 1), ("Snake_Case", 2), ("X1", 3), ("UPPER", 4), ("lower", 5), ("Aa", 6)]),
    ("Nm2", [("Prefix", 3), ("PrefixLong", 1), ("PrefixLonger", 2)]),
    ("Nm3", [("Single", 0)]),
    ("Nm4", [("TheLongestVariantNameThatIsUsedInThisCorpus", 9), ("T", 8)]),
    ("Nm5", [("Ärger", 1), ("Übung", 2), ("Ok", 3)]),
    ("Nm6", [("r#type", 0), ("r#fn", 1), ("Plain", 2)]),
    ("Nm7", [("None", 0), ("Some", 1), ("Ok", 2), ("Err", 3)]),
    ("Nm8", [("V%d" % i, i) for i in range(24)]),
    ("Nm9", [("Zeta", 5), ("Alpha", 1), ("Mid", 3), ("Beta", 0)]),
    ("some_enum", [("One", 1), ("Two", 2)]),
    ("HTTPStatus", [("Ok200", 200), ("Created201", 201), ("NotFound404", 404)]),
    ("Camel2Case3", [("One", 1), ("Two", 2)]),
]


def named_enums():
    out = []
    for i, (n, vs) in enumerate(NAMED):
        prim = detected(vs)
        out.append(Enum(n, prim, vs, derive="PrimitiveEnum" if i % 2 else None))
    # the same over other primitive types
    out.append(Enum("NmI8", "i8", [("Neg", -1), ("Zero", 0), ("Pos", 1)]))
    out.append(Enum("NmU64", "u64", [("Neg", 0xffff), ("Zero", 0), ("Pos", 1)]))
    # more variants than a byte has values
    out.append(Enum("NmBig", "u16", [("%s%d" % (("V", "Name", "OtherName")[i % 3], i), 3 * i) for i in range(300)], derive="PrimitiveEnum"))
    return out


def plain(n):
    return n[2:] if n.startswith("r#") else n


def tag_con(E, path, v):
    d = dict(E.variants)[v]
    w = E.tag_width
    return (path, [("l", path, k) for k in range(w)], [(d & ((1 << w) - 1),) * 2]) if w else None


def verify_text(cx, what, E, kind):
    """the returned text is the name of the variant of x"""
    if not cx.problems():
        return
    names = {plain(v): v for v, _ in E.variants}
    for p in cx.e["parts"]:
        t = V.text(p["ret"])
        cx.st.add("texts compared")
        if t is None:
            cx.find("value", "%s is not a fixed text: %s" % (what, str(p["ret"])[:100]))
            continue
        path = "x"
        cons = []
        if kind == "catchall":
            path = "x.Enum.0"
            fx = cx.t.guard_fixed(p["g"])
            k = fx.get(("x#", 0))
            if k == 1:
                if not catchall_text(cx, p, t):
                    if cx.satisfiable(p["g"]) is not None:
                        cx.find("text", "%s of an unknown number is %r" % (what, t))
                continue
            if k is None:
                cx.st.add("texts left open")
                continue
        if t not in names:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("text", "%s is %r, which is no variant's name" % (what, t))
            continue
        c = tag_con(E, path, names[t])
        if c:
            r, wit = cx.entails(p["g"], [c], True)
            if r is False:
                cx.find("text", "%s is %r for another variant (%s)" % (what, t, wit))


def catchall_text(cx, p, t):
    """"Unknown value: " and the number"""
    pre = "Unknown value: "
    if not t.startswith(pre):
        return False
    m = t[len(pre):]
    if not (m.startswith("{#") and m.endswith("}") and m[2:-1].isdigit()):
        return False
    tok = cx.e["tokens"][int(m[2:-1])]
    if tok["kind"] not in ("Debug", "Display"):
        return False
    _, _, bits = T.int_bits(tok["v"])
    cx.same(p["g"], [("number shown, bit %d" % i, b, ("l", "x.CatchAll.0", i)) for i, b in enumerate(bits)], "text", "the text of an unknown number")
    return True


def str_con(path, s):
    b = s.encode()
    return [("length", lsb(path + ".len", 64), [(len(b), len(b))])] + [("byte %d" % i, lsb("%s[%d]" % (path, i), 8), [(x, x)]) for i, x in enumerate(b)]


def verify_list(cx, what, E, wrapped):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        l = V.listing(p["ret"])
        if l is None:
            cx.find("value", "%s is no list: %s" % (what, str(p["ret"])[:100]))
            continue
        got = []
        for x in l:
            if wrapped:
                if x.get("e") != "EnumCatchAll" or x.get("v") != "Enum":
                    got.append("?" + str(x)[:40])
                    continue
                x = x["f"]["0"]
            got.append(x.get("v") or (E.variants[0][0] if x.get("s") == E.name or x.get("e") == E.name else "?"))
        cx.st.add("lists compared")
        want = [plain(v) for v, _ in E.variants]
        if [plain(g) for g in got] != want:
            cx.find("list", "%s is %s instead of %s" % (what, got, want))


def verify_fixed(cx, what, want):
    """entry() -> Option<number>: the same constant on every path"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        some, v = V.option(p["ret"])
        got = V.const_of(v) if some else None
        cx.st.add("parses compared")
        if got != want and cx.satisfiable(p["g"]) is not None:
            cx.find("parse", "%s gives %s instead of %s" % (what, got, want))


def probes(name):
    """texts near a name"""
    out = [name, name.lower(), name.upper(), name + " ", " " + name, name + "x", name[:-1], name[1:], name.swapcase(), name.replace("_", ""), name.replace("_", "-"), name.title(), name + "\0", '"' + name + '"', "r#" + name, "\t" + name, name + "\n"]
    return list(dict.fromkeys(out))


def rs_str(s):
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 or c in " _-#." else "\\u{%x}" % ord(c) for c in s) + '"'


def c11(run):
    es = named_enums()
    s = enum_sheet(es, 14)
    n_probe = 0
    for i, E in enumerate(es):
        n = E.name
        CA = "EnumCatchAll<%s>" % n
        k = n.lower() + "_"
        COW = "std::borrow::Cow<'static, %s>"
        s.add(k + "sd", "(x: %s) -> &'static str" % n, "PrimitiveEnumStaticStr::to_display_str(&x)", verify_text, ("the display string of " + n, E, ""), i)
        s.add(k + "dd", "(x: %s) -> %s" % (n, COW % "str"), "PrimitiveEnumDynamicStr::to_display_str(&x)", verify_text, ("the dynamic display string of " + n, E, ""), i)
        s.add(k + "cd", "(x: %s) -> %s" % (CA, COW % "str"), "PrimitiveEnumDynamicStr::to_display_str(&x)", verify_text, ("the display string of " + CA, E, "catchall"), i)
        s.add(k + "sl", "() -> &'static [%s]" % n, "<%s as PrimitiveEnumStaticStr>::all_variants()" % n, verify_list, ("the variant list of " + n, E, False), i)
        s.add(k + "dl", "() -> %s" % (COW % ("[%s]" % n)), "<%s as PrimitiveEnumDynamicStr>::all_variants()" % n, verify_list, ("the dynamic variant list of " + n, E, False), i)
        s.add(k + "cl", "() -> %s" % (COW % ("[%s]" % CA)), "<%s as PrimitiveEnumDynamicStr>::all_variants()" % CA, verify_list, ("the variant list of " + CA, E, True), i)
        low = {}
        for v, _ in E.variants:
            low.setdefault(plain(v).lower(), []).append(v)
        for fn, key in (("from_str", lambda v: plain(v)), ("from_str_lower", lambda v: plain(v).lower())):
            for ty, pat in ((n, "Some(%s::%%s)" % n), (CA, "Some(EnumCatchAll::Enum(%s::%%s))" % n)):
                P = "<%s as PrimitiveEnum>" % ty
                sh = "c" if ty == CA else "e"
                allnames = {}
                for v, d in E.variants:
                    allnames.setdefault(key(v), []).append((v, d))
                for j, (v, d) in enumerate(E.variants):
                    if len(allnames[key(v)]) > 1 or len(E.variants) > 32 and j not in (0, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 299):
                        continue
                    if len(E.variants) <= 32:
                        s.add("%s%s_%s_%d" % (k, fn, sh, j), "(s: &str) -> Option<()>", "match %s::%s(s) { %s => Some(()), _ => None }" % (P, fn, pat % v),
                          V.verify_option, ("%s::%s giving %s" % (ty, fn, v), None, str_con("s", key(v))), i)
                    for q, t in enumerate(probes(plain(v)) if j < 6 or run.thorough else [plain(v), plain(v).lower()]):
                        if len(allnames.get(t, [])) > 1:
                            continue
                        want = allnames[t][0][1] & ((1 << E.pw) - 1) if t in allnames else None
                        s.add("%s%s_%s_%d_p%d" % (k, fn, sh, j, q), "() -> Option<%s>" % E.prim, "%s::%s(%s).map(|e| e.to_primitive())" % (P, fn, rs_str(t)), verify_fixed, ("%s::%s(%r)" % (ty, fn, t), want), i)
                        n_probe += 1
                if ty == CA and len(E.variants) <= 32:
                    s.add("%s%s_never" % (k, fn), "(s: &str) -> Option<()>", "match %s::%s(s) { Some(EnumCatchAll::CatchAll(_)) => Some(()), _ => None }" % (P, fn), verify_never, ("%s::%s giving an unknown number" % (ty, fn),), i)
        # display, then parse
        s.add(k + "rt", "(x: %s) -> Option<%s>" % (n, E.prim), "<%s as PrimitiveEnum>::from_str(PrimitiveEnumStaticStr::to_display_str(&x)).map(|e| e.to_primitive())" % n, V.verify_option,
              ("parsing the display string of " + n, ("int", enum_number_bits(E, "x", E.pw)), []), i)
    n, _ = s.run(run, "names")
    run.require("name functions analysed", n, 2000)
    run.stats.add("enums", len(es))
    run.stats.add("texts near a name, parsed", n_probe)
    run.samples += [{"declaration": e.decl()} for e in es[:3]]
    run.assumptions.append("variant names of up to 48 bytes; the parser is analysed for every string, of any length")
    return run.finish("translation_validation", "Enums whose names have prefixes of each other, mixed case, digits, underscores, non-ASCII letters, raw identifiers and the names of Option and Result variants: display strings (static, dynamic, catch-all) for every value, "
                      "both parsers for every string (rule: the variant exactly for its name, or its lower-case form), the variant lists (rule: declaration order, each once), and texts near each name evaluated one by one.",
                      {"programs": len(es), "disagreements_checked": n})


def verify_never(cx, what):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        if p["ret"]["v"] != "None" and cx.satisfiable(p["g"]) is not None:
            cx.find("parse", "%s happens (%s)" % (what, T.show_guard(cx.t, p["g"])))


# ---- backing types

def c12(run):
    pos = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1]
    neg = [-1, -127, -128, -129, -32767, -32768, -32769, -(1 << 31) + 1, -(1 << 31), -(1 << 31) - 1, -(1 << 62), -(1 << 63)]
    es = []

    def enum(vs, explicit=None, **kw):
        es.append(Enum("D%d" % len(es), kw.pop("prim", None) or detected(vs), vs, explicit=explicit, derive=kw.pop("derive", "PrimitiveEnum"), **kw))

    def V_(ns):
        return [("V%d" % i, d) for i, d in enumerate(ns)]
    for a in pos + neg:
        enum(V_([a]))
        for b in (0, 1, 5):
            if a != b:
                enum(V_([a, b]))
                enum(V_([b, a]))
    for a in pos:
        for b in neg:
            enum(V_([a, b]))
            enum(V_([b, a]))
            enum(V_([5 if a != 5 else 6, a, 3 if a != 3 else 4, b, 7]))
    for a in pos:
        for b in pos:
            if a < b:
                enum(V_([b, a]))
    for a in neg:
        for b in neg:
            if a < b:
                enum(V_([a, b]))
                enum(V_([b, 2, a]))
    # the next number, not written, needs the wider type
    for a in (127, 255, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1):
        enum(V_([a, a + 1]), explicit=[0])
        enum(V_([a, a + 1, 3]), explicit=[0, 2])
        enum(V_([-1, a, a + 1]), explicit=[0, 1])
    enum(V_([-2, -1, 0, 1]), explicit=[0])
    enum(V_([-1, 0, 128]), explicit=[0, 2])
    enum(V_([0, 1, 2]), explicit=[])
    enum(V_(range(256)), explicit=[])
    enum(V_(range(257)), explicit=[])
    enum(V_([-128 + i for i in range(256)]), explicit=[0])
    enum(V_([-128 + i for i in range(257)]), explicit=[0])
    # other literal formats
    for f in FORMS:
        for a in (200, 40000, 70000, 1 << 40):
            enum(V_([a, 1]), lits={0: literal(a, f)})
            enum(V_([-a, 1]), lits={0: literal(-a, f)})
    # zero written with a sign
    enum(V_([0, 1]), explicit=[0], lits={0: "-0"})
    enum(V_([0, 200]), lits={0: "-0x0"})
    # beyond isize, with a representation that holds it
    for a in (1 << 63, (1 << 64) - 1):
        enum(V_([a, 1]), repr="u64")
        enum(V_([1, a]), repr="u64")
    # the representation does not decide
    for r in ("u64", "u32", "u16", "u8"):
        enum(V_([5, 6]), repr=r)
        enum(V_([5, 200]), repr=r)
    for r in ("i64", "i32", "i16", "i8"):
        enum(V_([-5, 6]), repr=r)
        enum(V_([5, 6]), repr=r)
    # suffixes decide
    for t, n in NATIVE.items():
        enum(V_([5]), repr=t, suffix={0: t}, prim=t)
        enum(V_([5, 6]), repr=t, suffix={0: t}, prim=t)
        enum(V_([5, 6, 7]), repr=t, suffix={2: t}, prim=t)
        enum(V_([100, 3]), repr=t, suffix={0: t, 1: t}, prim=t)
        if signed(t):
            enum(V_([-5, 6]), repr=t, suffix={0: t}, prim=t)
            enum(V_([6, -5]), repr=t, suffix={0: t, 1: t}, prim=t)
    # given types
    for t, n in NATIVE.items():
        for vs in ([1, 2], [127], [0, 1, 2], [(1 << (n - 1)) - 1]):
            enum(V_(vs), derive="PrimitiveEnum_" + t, prim=t)
        if signed(t):
            enum(V_([-1, 5]), derive="PrimitiveEnum_" + t, prim=t)
            enum(V_([-(1 << (n - 1)), 0]), derive="PrimitiveEnum_" + t, prim=t)
        elif n < 64:
            enum(V_([(1 << n) - 1, 0]), derive="PrimitiveEnum_" + t, prim=t)
        for r in ("u64", "i32", "u8"):
            enum(V_([1, 100]), derive="PrimitiveEnum_" + t, prim=t, repr=r)

    def text(es):
        return M.HEADER + "".join(e.decl() + "pub fn t_%s(x: <%s as PrimitiveEnum>::Primitive) -> %s { x }\n" % (e.name.lower(), e.name, e.prim) for e in es)
    groups = [es[i::40] for i in range(40)]
    res = run.compile_all([("b%d" % i, text(g)) for i, g in enumerate(groups)])
    again = [e for i, g in enumerate(groups) if not res["b%d" % i][0] for e in g]
    if again:
        single = run.compile_all([("s" + e.name, text([e])) for e in again])
        for e in again:
            ok, diags = single["s" + e.name]
            if not ok:
                msg = "; ".join((d["message"] + " " + " ".join(str(s.get("label")) for s in d.get("spans", []) if s.get("label")))[:200] for d in diags if d.get("level") == "error")[:400]
                run.find("backing-type", "derive of %s" % e.derive, "the primitive type is not %s: %s" % (e.prim, msg), [e.decl()])
        run.stats.add("declarations compiled one by one", len(again))
    # a wrong expectation must not compile
    ctl = [Enum("K", "u8", V_([1, 255]), derive="PrimitiveEnum"), Enum("K", "i16", V_([-1, 128]), derive="PrimitiveEnum"), Enum("K", "u32", V_([1, 2]), derive="PrimitiveEnum_u32")]
    pairs_compile(run, [("control%d" % i, text([e])[len(M.HEADER):], text([e])[len(M.HEADER):].replace("-> " + e.prim, "-> " + ("u16" if e.prim != "u16" else "u8"))) for i, e in enumerate(ctl)])
    # and the numbers come through it
    es2 = [es[i] for i in range(0, len(es), 1 if run.thorough else 3)]
    s = enum_sheet(es2)
    for i, E in enumerate(es2):
        T_ = "<%s as PrimitiveEnum>" % E.name
        s.add(E.name.lower() + "_rt", "(x: %s) -> Option<%s>" % (E.name, E.prim), T_ + "::from_primitive(%s::to_primitive(&x)).map(|e| %s::to_primitive(&e))" % (T_, T_), V.verify_option,
              ("the number of a variant of " + E.name, ("int", enum_number_bits(E, "x", E.pw)), []), i)
    if not again:
        s.run(run, "back")
    run.require("backing types decided", len(es), 700)
    run.stats.add("enums", len(es))
    run.samples += [{"declaration": e.decl(), "type": e.prim} for e in es[60:600:130]]
    return run.finish("translation_validation", "For every pair of boundary numbers (in both orders, with others around, implicit successors, literal formats, suffixes, representations) a type-level witness that compiles only if the primitive type is the promised one; "
                      "controls show that another expectation does not compile; for the same enums every number passes through the conversions unchanged.", {"programs": len(es), "disagreements_checked": len(es)})


CHECKS = {"C09": c09, "C10": c10, "C11": c11, "C12": c12}
