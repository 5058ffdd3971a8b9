"""Checks that compare derived code with the declared layout (C01, C02, C03, C07, C08, C18, C19, C27)."""
from . import corpus as C, model as M, verify as V, runner as R
from .model import *


def unpack_bits(S, arg="b"):
    return [("l", "%s[%d]" % (arg, i // 8), 7 - i % 8) for i in range(8 * S.num_bytes)]


def task(run, ctxs, S, fn):
    cx = ctxs.get((S.name, fn))
    if cx is None:
        return []
    if fn == "pack":
        return [(cx, V.verify_pack, (S.name, S.expect_pack("x"), S.owner()))]
    if fn == "unpack":
        v, c = S.expect_unpack(unpack_bits(S))
        return [(cx, V.verify_unpack, (S.name, v, c))]
    if fn == "rt":
        return [(cx, V.verify_rt, (S.name, S.expect_rt("x")))]
    raise ValueError(fn)


def structs(run, ss, fns, cfg="default"):
    seen = set()
    ss = [s for s in ss if not (s.name in seen or seen.add(s.name))]
    ctxs = run.structs(ss, fns, cfg)
    tasks = [t for s in ss for f in fns for t in task(run, ctxs, s, f)]
    run.verify(tasks)
    run.stats.add("declarations", len(ss))
    run.stats.add("field elements", sum(len(f.elems()) for s in ss for f in s.fields))
    for s in ss[:: max(1, len(ss) // 3)][:3]:
        run.samples.append({"declaration": s.decl(), "functions": fns})
    return ctxs


def all_structs(run, quick_random=120, thorough_random=1500):
    ss = C.width_structs() + C.bool_structs() + C.enum_structs() + C.enum_structs(True) + C.reserved_structs() + C.nested_structs() + C.array_structs() + C.large_structs() + C.wide_structs(run.thorough) + C.reorder_structs()
    ss += C.random_structs(run.seed, thorough_random if run.thorough else quick_random)
    return ss


EXPL = ("For each declaration of the corpus the derived and library MIR of the analysed function is interpreted abstractly over all inputs at once; every value is a tuple of "
        "bits, every bit a term over the input bits. Each resulting bit is compared with what the declaration promises: by structure, by enumerating the few input bits involved, or (counted apart) on steered samples. ")


FAR = [(1 << 21, False), ((1 << 21) + 7, True), ((1 << 22) + 3, False)]


def far(run, which):
    """structures of millions of bytes: only a window of bytes around the fields is compared"""
    texts, exp, tasks = [], {}, []
    for k, (off, lsb0) in enumerate(FAR[:None if run.thorough else 2]):
        sub = Struct("Sub", [Field("a", IntN("u8", 3), 1, 3), Field("b", Int("u16"), 5, 16)], endian="msb")
        def fields(at):
            return [Field("f0", Int("u8"), at + 7, 8), Field("f1", IntN("u16", 11), at + 15, 11), Field("f2", Nest(sub), at + 29, 22), Field("f3", IntN("i32", 24), at + 56, 24),
                    Field("f4", IntN("u8", 5), at + 80, 15, 3), Field("f5", Bool(), at + 96, 1)]
        win = Struct("Far%d" % k, fields(0), size=13 if lsb0 else None, endian=("msb", "lsb")[k % 2], numbering="lsb0" if lsb0 else "msb0")
        S = Struct("Far%d" % k, fields(8 * off), size=off + 13 if lsb0 else None, endian=win.endian, numbering=win.numbering)
        S.derive = "PackedStruct, Clone, Copy, Debug, PartialEq"
        n = win.num_bytes
        t = M.HEADER + sub.decl() + S.decl()
        t += "pub fn w_pack%d(x: &Far%d) -> Result<[u8; %d], PackingError> { let p: [u8; %d] = x.pack()?; Ok([%s]) }\n" % (k, k, n, off + n, ", ".join("p[%d]" % (off + i) for i in range(n)))
        t += "pub fn w_unpack%d(b: &[u8; %d]) -> Result<Far%d, PackingError> { let mut p = [0u8; %d]; %s Far%d::unpack(&p) }\n" % (k, n, k, off + n, " ".join("p[%d] = b[%d];" % (off + i, i) for i in range(n)), k)
        texts.append(("far%d" % k, t))
        exp[k] = win
    got = lib_entries(run, texts)
    for k, win in exp.items():
        if which == "pack" and "w_pack%d" % k in got:
            tasks.append((got["w_pack%d" % k], V.verify_pack, (win.name, win.expect_pack("x"), win.owner())))
        if which == "unpack" and "w_unpack%d" % k in got:
            v, c = win.expect_unpack(unpack_bits(win))
            tasks.append((got["w_unpack%d" % k], V.verify_unpack, (win.name, v, c)))
    run.verify(tasks)
    run.require("structures of millions of bytes", len(tasks), 2)


def c01(run):
    ss = all_structs(run) + C.endian_structs() + C.notation_structs()
    structs(run, ss, ["pack"])
    far(run, "pack")
    run.require("pack functions analysed", run.stats.get("functions analysed", 0), 400)
    return run.finish("translation_validation", EXPL + "Rule: every output bit equals the declared field's bit or is 0.", progs(run))


def progs(run):
    return {"programs": run.stats.get("declarations", 0), "disagreements_checked": run.stats.get("bits compared", 0)}


def c02(run):
    ss = all_structs(run) + C.endian_structs() + C.hygiene_structs()
    structs(run, ss, ["rt"])
    run.require("round trips analysed", run.stats.get("functions analysed", 0), 400)
    return run.finish("translation_validation", EXPL + "Rule: unpack(pack(x)) is Ok and every bit of every field is the bit that went in.", progs(run))


def c03(run):
    ss = all_structs(run) + C.notation_structs()
    structs(run, ss, ["unpack"])
    far(run, "unpack")
    run.require("unpack functions analysed", run.stats.get("functions analysed", 0), 400)
    return run.finish("translation_validation", EXPL + "Rule: every bit of an unpacked field is a function of that field's declared bits only; the result is Ok exactly when the declared enum and boolean fields are valid.", progs(run))

def u64(name):
    return [("l", name, k) for k in range(64)]


def const64(v):
    return [("c", v >> k & 1) for k in range(64)]


def c07(run):
    ss = C.reserved_structs() + C.reserved_mixed() + [s for s in C.random_structs(run.seed + 7, 600 if run.thorough else 150, "Rr") if any(isinstance(f.elem, Res) for f in s.fields)]
    structs(run, ss, ["pack", "unpack", "rt"])
    # the types themselves, every width
    ws = sorted(set(range(1, 256)) if run.thorough else set(range(1, 73)) | {80, 81, 96, 100, 127, 128, 129, 160, 191, 200, 254, 255})
    txt, exp = [M.HEADER], {}
    for w in ws:
        for al, one in (("ReservedZero", 0), ("ReservedOne", 1), ("ReservedZeroes", 0), ("ReservedOnes", 1)):
            if al.endswith("s") and w % 7:
                continue
            t = "%s<packed_bits::Bits::<%d>>" % (al, w)
            n = ceil8(w)
            k = "%s_%d" % (al, w)
            txt.append("pub fn w_p_%s(x: &%s) -> Result<[u8; %d], PackingError> { x.pack() }" % (k, t, n))
            txt.append("pub fn w_u_%s(b: &[u8; %d]) -> Result<%s, PackingError> { <%s as PackedStruct>::unpack(b) }" % (k, n, t, t))
            txt.append("pub fn w_d_%s() -> Result<[u8; %d], PackingError> { <%s as Default>::default().pack() }" % (k, n, t))
            for p in "pud":
                exp["w_%s_%s" % (p, k)] = (p, t, one, n)
    got = lib_entries(run, [("reserved", "\n".join(txt))])
    tasks = []
    for k, (p, t, one, n) in exp.items():
        cx = got.get(k)
        if cx is None:
            continue
        if p == "u":
            tasks.append((cx, V.verify_unpack, (t, ("unit",), [])))
        else:
            tasks.append((cx, V.verify_pack, (t, [("c", one)] * (8 * n))))
    run.verify(tasks)
    run.require("reserved types analysed", len(tasks), 300)
    return run.finish("translation_validation", EXPL + "Rule: reserved fields and types pack constant bits, unpacking them is Ok on every path and independent of the input.", progs(run))


def lib_entries(run, crates, cfg="default", edition="2018"):
    """entry name -> Ctx of the witness crates; one that does not compile is a finding"""
    got, errs = run.crates(crates, cfg, edition)
    out = {}
    for name, _ in crates:
        if got[name] is None:
            run.find("build", "witness crate %s" % name, "uses of the public interface no longer compile: %s" % R.first_error(errs[name]))
            continue
        t, es = got[name]
        for k, e in es.items():
            out[k] = run.ctx(t, e, k[2:])
    return out


def c08(run):
    ss = C.bool_structs() + C.enum_structs() + C.enum_gap_structs() + [s for s in C.array_structs() + C.nested_structs() if has_valid(s)]
    ss += [s for s in C.random_structs(run.seed + 8, 800 if run.thorough else 250, "Rv") if has_valid(s)]
    structs(run, ss, ["unpack"])
    txt = [M.HEADER, "pub fn w_bool(b: &[u8; 1]) -> Result<bool, PackingError> { <bool as PackedStruct>::unpack(b) }",
           "pub fn w_boolslice(b: &[u8]) -> Result<bool, PackingError> { <bool as PackedStructSlice>::unpack_from_slice(b) }"]
    got = lib_entries(run, [("boolean", "\n".join(txt))])
    v = [("l", "b[0]", k) for k in range(8)]
    ts = []
    if "w_bool" in got:
        ts.append((got["w_bool"], V.verify_unpack, ("bool", ("bool", v[0]), [("bool", v, [(0, 1)])])))
    if "w_boolslice" in got:
        ts.append((got["w_boolslice"], V.verify_sunpack, ("bool", 1, ("bool", v[0]), [("bool", v, [(0, 1)])])))
    run.verify(ts)
    run.require("unpack functions analysed", run.stats.get("functions analysed", 0), 150)
    return run.finish("translation_validation", EXPL + "Rule: on every path that returns Ok all boolean and enum fields hold a valid number and the value is that number; every path that returns Err carries InvalidValue and some field is invalid.", progs(run))


def has_valid(s):
    v, c = s.expect_unpack(unpack_bits(s))
    return bool(c)


EXCL = "exclusive byte range"


def c18(run):
    ss = C.notation_structs() + C.notation_systematic(run.thorough) + C.macro_structs() + C.random_structs(run.seed + 18, 400 if run.thorough else 100, "Rp")
    structs(run, ss, ["pack", "unpack"])
    # exclusive byte ranges
    good = C.excl_bytes_structs()
    for s, faulty in good:
        sub = run.sub()
        structs(sub, [s], ["pack", "unpack"])
        run.absorb(sub)
        if not sub.findings:
            continue
        # the recorded deviation, exactly: one byte short of what was written
        sub2 = run.sub()
        if faulty is not None:
            structs(sub2, [faulty], ["pack", "unpack"])
        same = faulty is not None and not sub2.findings
        for f in sub.findings:
            if same:
                f.key = "bytes-exclusive-range-short"
            run.findings.append(f)
    run.require("functions analysed", run.stats.get("functions analysed", 0), 300)
    return run.finish("translation_validation", EXPL + "Rule: the layout written in each notation is the documented one, for packing and unpacking.", progs(run))


def c19(run):
    ss = C.endian_structs() + C.endian_systematic(run.thorough)
    structs(run, ss, ["pack", "unpack"])
    run.require("functions analysed", run.stats.get("functions analysed", 0), 100)
    return run.finish("translation_validation", EXPL + "Rule: every multi-byte field is stored in its own byte order, else in the structure's; other fields are unaffected.", progs(run))


BLOCKS = [(1024, 9, 0, False), (1024, 9, 16, True), (40, 3, 5, False), (96, 90, 8, False), (4100, 2, 0, False)]


def blocks(run):
    """arrays of large elements, beyond 2^13 and 2^16 bits: one free byte in every element, compared with its surroundings"""
    crates, tasks = [], []
    for k, (size, n, off, lsb0) in enumerate(BLOCKS):
        txt = [M.HEADER]
        total = ceil8(off + 8 * size * n)
        at = [(37 * i + 11) % (size - 2) + 1 for i in range(n)]
        txt.append("pub type Raw%d = [u8; %d];" % (k, size))
        pos = "" if off == 0 and not lsb0 else ", bits = \"%d..=%d\"" % (((total * 8 - 1 - off), total * 8 - off - 8 * size * n) if lsb0 else (off, off + 8 * size * n - 1))
        txt.append("#[derive(PackedStruct, Clone)] #[packed_struct(bit_numbering = \"%s\", size_bytes = \"%d\")] pub struct Blocks%d { #[packed_field(element_size_bytes = \"%d\"%s)] pub a: [Raw%d; %d] }"
                   % ("lsb0" if lsb0 else "msb0", total, k, size, pos, k, n))
        first = [off // 8 + size * i + at[i] for i in range(n)]
        txt.append("pub fn w_bp%d(x: &[u8; %d]) -> Result<[u8; %d], PackingError> { let mut v = Blocks%d { a: [[0; %d]; %d] }; %s let p: [u8; %d] = v.pack()?; Ok([%s]) }" % (
            k, n, 3 * n, k, size, n, " ".join("v.a[%d][%d] = x[%d];" % (i, at[i], i) for i in range(n)), total, ", ".join("p[%d]" % (f + d) for f in first for d in (-1 if not off % 8 else 0, 0 if not off % 8 else 1, 1 if not off % 8 else 2))))
        txt.append("pub fn w_bu%d(b: &[u8; %d]) -> Result<[u8; %d], PackingError> { let mut p = [0u8; %d]; %s let v = Blocks%d::unpack(&p)?; Ok([%s]) }" % (
            k, 2 * n, 3 * n, total, " ".join("p[%d] = b[%d]; p[%d] = b[%d];" % (f, 2 * i, f + 1, 2 * i + 1) for i, f in enumerate(first)), k,
            ", ".join("v.a[%d][%d]" % (i, at[i] + d) for i in range(n) for d in (-1, 0, 1))))
        crates.append(("blocks%d" % k, "\n".join(txt) + "\n"))
    got = lib_entries(run, crates)
    for k, (size, n, off, lsb0) in enumerate(BLOCKS):
        s = off % 8
        zero = [("c", 0)]
        pack, unpack = [], []
        for i in range(n):
            bits = [("l", "x[%d]" % i, 7 - j) for j in range(8)]
            pack += zero * 8 + bits + zero * 8 if not s else zero * s + bits + zero * (16 - s)
            b = [("l", "b[%d]" % (2 * i + j // 8), 7 - j % 8) for j in range(16)]
            unpack += zero * (8 - s) + b + zero * s
        for w, e in (("bp", pack), ("bu", unpack)):
            if "w_%s%d" % (w, k) in got:
                tasks.append((got["w_%s%d" % (w, k)], V.verify_pack, ("an array of %d elements of %d bytes" % (n, size), e)))
    run.verify(tasks)
    run.require("arrays of large elements", len(tasks), 2 * len(BLOCKS))


def c27(run):
    ss = C.array_structs() + C.nested_structs() + C.large_structs() + C.hygiene_structs() + C.array_systematic(run.thorough)
    ss += [s for s in C.random_structs(run.seed + 27, 600 if run.thorough else 200, "Ra") if any(f.count is not None or isinstance(f.elem, Nest) for f in s.fields)]
    structs(run, ss, ["pack", "unpack", "rt"])
    blocks(run)
    run.require("functions analysed", run.stats.get("functions analysed", 0), 500)
    return run.finish("translation_validation", EXPL + "Rule: element i of an array lies at bits i*w .. i*w+w-1 of the field, a nested structure contributes its low-order bits, whatever the fields are called.", progs(run))


def c20(run):
    ss = all_structs(run, 80) + C.size_structs()
    ctxs = run.structs(ss, ["size"])
    tasks = []
    for s in ss:
        if (s.name, "size") in ctxs:
            tasks.append((ctxs[(s.name, "size")], V.verify_sizes, (s.name, s.num_bits, s.num_bytes)))
    run.stats.add("declarations", len(ss))
    # library types
    ty = [("bool", 1, 1), ("u8", 8, 1), ("i8", 8, 1), ("()", 0, 0)]
    ty += [("[u8; %d]" % n, 8 * n, n) for n in (0, 1, 2, 3, 7, 8, 31, 32, 33, 100)]
    ws = range(1, 256) if run.thorough else list(range(1, 74)) + [80, 95, 96, 97, 127, 128, 129, 192, 200, 254, 255]
    for w in ws:
        ty.append(("ReservedZero<packed_bits::Bits::<%d>>" % w, w, ceil8(w)))
        ty.append(("ReservedOne<packed_bits::Bits::<%d>>" % w, w, ceil8(w)))
    for w in range(1, 65):
        for sg in "ui":
            n = fit_native(w, sg == "i")
            for o in "ML":
                ty.append(("%ssbInteger<%s, packed_bits::Bits::<%d>, Integer<%s, packed_bits::Bits::<%d>>>" % (o, n, w, n, w), w, ceil8(w)))
    txt = [[M.HEADER] for _ in range(8)]
    exp = {}
    for i, (t, bits, by) in enumerate(ty):
        txt[i % 8].append("pub fn w_t%d(x: &%s) -> (usize, usize, Result<usize, PackingError>, Result<usize, PackingError>) { (<%s as packed_struct::PackedStructInfo>::packed_bits(), "
                   "core::mem::size_of::<<%s as PackedStruct>::ByteArray>(), <%s as PackedStructSlice>::packed_bytes_size(Some(x)), <%s as PackedStructSlice>::packed_bytes_size(None)) }" % (i, t, t, t, t, t))
        exp["w_t%d" % i] = (t, bits, by)
    # marker types
    for i, w in enumerate(ws):
        txt[i % 8].append("pub fn w_b%d() -> (usize, usize, usize, usize, usize) { use packed_struct::types::bits::*; type B = Bits<%d>; (<B as NumberOfBits>::number_of_bits(), <B as NumberOfBits>::byte_array_len(), "
                   "<<B as NumberOfBits>::Bytes as NumberOfBytes>::number_of_bytes(), core::mem::size_of::<<<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes>(), <<<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len()) }" % (w, w))
        exp["w_b%d" % w] = ("Bits<%d>" % w, w, None)
    got = lib_entries(run, [("sizes%d" % i, "\n".join(t)) for i, t in enumerate(txt)])
    for k, (t, bits, by) in exp.items():
        cx = got.get(k)
        if cx is None:
            run.find("missing", t, "its sizes were not analysed")
        elif by is not None:
            tasks.append((cx, V.verify_sizes, (t, bits, by)))
        else:
            tasks.append((cx, V.verify_consts, (t, [bits, ceil8(bits), ceil8(bits), ceil8(bits), ceil8(bits)], ["number_of_bits", "byte_array_len", "number_of_bytes", "size of the byte array", "ByteArray::len"])))
    # the markers for whole and partial bytes exclude each other: generic code picks an implementation by them
    good, bad = [], []
    for w in sorted(set(list(range(1, 66)) + list(ws))):
        full = w % 8 == 0
        a, b = ("BitsFullBytes", "BitsPartialBytes") if full else ("BitsPartialBytes", "BitsFullBytes")
        good.append((w, a))
        bad.append((w, b))
    head = M.HEADER + "use packed_struct::types::bits::*;\nfn full<T: BitsFullBytes>() {}\nfn part<T: BitsPartialBytes>() {}\n"
    call = {"BitsFullBytes": "full", "BitsPartialBytes": "part"}
    items = [("mark_ok", head + "pub fn t() { %s }" % " ".join("%s::<Bits<%d>>();" % (call[m], w) for w, m in good))]
    items += [("mark_bad", head + "\n".join("pub fn t%d() { %s::<Bits<%d>>(); }" % (w, call[m], w) for w, m in bad))]
    res = run.compile_all(items)
    if not res["mark_ok"][0]:
        run.find("marker", "Bits<N>", "the marker of whole/partial byte widths is missing: %s" % "; ".join(d["message"] for d in res["mark_ok"][1] if d.get("level") == "error")[:300])
    n277 = sum(1 for d in res["mark_bad"][1] if d.get("level") == "error" and (d.get("code") or {}).get("code") == "E0277")
    if n277 != len(bad):
        run.find("marker", "Bits<N>", "only %d of %d widths lack the other marker" % (n277, len(bad)))
    run.verify(tasks)
    run.require("types whose sizes were compared", len(tasks), 600)
    return run.finish("translation_validation", "Every size query is analysed abstractly and must be the constant the declaration gives: bit count, length of the byte array, size with and without an instance; markers are decided by the compiler's trait solver.", progs(run))


def c13(run):
    ss = C.slice_structs() + C.random_structs(run.seed + 13, 200 if run.thorough else 60, "Rs")
    ss = [s for s in ss if s.num_bytes <= 150]
    ctxs = run.structs(ss, ["spack", "sunpack", "vpack"])
    tasks = []
    for s in ss:
        e = s.expect_pack("x")
        v, c = s.expect_unpack(unpack_bits(s))
        for f in ("spack", "sunpack", "vpack"):
            cx = ctxs.get((s.name, f))
            if cx is None:
                continue
            if f == "spack":
                tasks.append((cx, V.verify_spack, (s.name, s.num_bytes, e)))
            elif f == "sunpack":
                tasks.append((cx, V.verify_sunpack, (s.name, s.num_bytes, v, c)))
            else:
                tasks.append((cx, V.verify_vpack, (s.name, e)))
    run.stats.add("declarations", len(ss))
    ty = slice_types()
    txt, exp = [M.HEADER], {}
    for i, (t, n, packed, val, cons) in enumerate(ty):
        for f in ("spack", "sunpack", "vpack"):
            txt.append(M.FNS[f].format(n="t%d" % i, t=t))
            exp["w_t%d_%s" % (i, f)] = (t, n, packed, val, cons, f)
    got = lib_entries(run, [("slices", "\n".join(txt))])
    for k, (t, n, packed, val, cons, f) in exp.items():
        cx = got.get(k)
        if cx is None:
            run.find("missing", t, "its slice functions were not analysed")
        elif f == "spack":
            tasks.append((cx, V.verify_spack, (t, n, packed)))
        elif f == "sunpack":
            tasks.append((cx, V.verify_sunpack, (t, n, val, cons)))
        else:
            tasks.append((cx, V.verify_vpack, (t, packed)))
    # lengths that are known: code with a loop over the slice can be followed to its end
    some = [s for s in ss if s.num_bytes <= 24][::1 if run.thorough else 2]
    done, txt, exp = set(), [], {}
    for s in some:
        for x in s.nested() + [s]:
            if x.name not in done:
                done.add(x.name)
                txt.append(x.decl())
    sheets = [[M.HEADER] + txt, [M.HEADER], [M.HEADER]]
    kinds = [(s.name, s.num_bytes, s.expect_pack("x"), 0) for s in some] + [(t, n, packed, 1 + i % 2) for i, (t, n, packed, _, _) in enumerate(ty)]
    for i, (t, n, packed, c) in enumerate(kinds):
        ks = other_lengths(n)
        if c == 0 and not run.thorough:
            ks = sorted({ks[i % len(ks)], ks[(i + 1) % len(ks)], n})
        for k in ks:
            sheets[c].append("pub fn w_p%d_%d(x: &%s, o: &mut [u8; %d]) -> Result<(), PackingError> { x.pack_to_slice(&mut o[..]) }" % (i, k, t, k))
            exp["w_p%d_%d" % (i, k)] = (V.verify_fpack, (t, n, k, packed))
            if k != n:
                sheets[c].append("pub fn w_u%d_%d(b: &[u8; %d]) -> Result<%s, PackingError> { <%s as PackedStructSlice>::unpack_from_slice(&b[..]) }" % (i, k, k, t, t))
                exp["w_u%d_%d" % (i, k)] = (V.verify_funpack, (t, n, k))
    got = lib_entries(run, [("fixed%d" % i, "\n".join(t)) for i, t in enumerate(sheets)])
    for k, (fn, args) in exp.items():
        if got.get(k) is None:
            run.find("missing", args[0], "its slice functions were not analysed")
        else:
            tasks.append((got[k], fn, args))
    run.stats.add("functions with slices of a known length", len(exp))
    run.require("functions with slices of a known length", len(exp), 350)
    run.verify(tasks)
    run.require("slice functions analysed", len(tasks), 200)
    return run.finish("translation_validation", "pack_to_slice and unpack_from_slice are analysed with an unknown slice length (all 2^63 of them at once) and unknown content. Rule: Ok only at exactly the packed size and then the same bits "
                      "as the fixed-array form promises; every other length gives BufferSizeMismatch carrying both sizes and leaves every output byte as it was.", progs(run))


def other_lengths(n):
    """lengths to try with a type of n bytes (n is the last)"""
    return sorted({k for k in (0, 1, n - 2, n - 1, n + 1, n + 2, n + 8, 2 * n) if 0 <= k != n}) + [n]


def lsb(path, n):
    return [("l", path, k) for k in range(n)]


def slice_types():
    """(type, packed bytes, packed bits of x, unpacked value of b, constraints)"""
    def bytes_bits(path, n, one=False):
        return [("l", "%s[%d]" % (path, i), 7 - k) for i in range(n) for k in range(8)]
    out = [("bool", 1, [C0] * 7 + [("l", "x", 0)], ("bool", ("l", "b[0]", 0)), [("bool", lsb("b[0]", 8), [(0, 1)])]),
           ("u8", 1, lsb("x", 8)[::-1], ("int", lsb("b[0]", 8)), []), ("i8", 1, lsb("x", 8)[::-1], ("int", lsb("b[0]", 8)), []), ("()", 0, [], ("unit",), [])]
    for n in (0, 1, 2, 3, 8, 17, 32, 64, 100):
        out.append(("[u8; %d]" % n, n, bytes_bits("x", n), ("array", [("int", lsb("b[%d]" % i, 8)) for i in range(n)]), []))
    for w in (1, 7, 8, 9, 16, 65):
        out.append(("ReservedOne<packed_bits::Bits::<%d>>" % w, ceil8(w), [C1] * 8 * ceil8(w), ("unit",), []))
        out.append(("ReservedZero<packed_bits::Bits::<%d>>" % w, ceil8(w), [C0] * 8 * ceil8(w), ("unit",), []))
    for w, sg in ((3, 0), (8, 1), (12, 0), (13, 1), (16, 0), (24, 1), (31, 0), (33, 0), (48, 1), (63, 1), (64, 0)):
        n = fit_native(w, sg)
        el = IntN(n, w)
        for o, e in (("M", "msb"), ("L", "lsb")):
            t = "%ssbInteger<%s, packed_bits::Bits::<%d>, Integer<%s, packed_bits::Bits::<%d>>>" % (o, n, w, n, w)
            by = ceil8(w)
            pk = wrap_bits(el.src("x.0"), w, e)
            un = unwrap_bits([("l", "b[%d]" % (i // 8), 7 - i % 8) for i in range(8 * by)], w, e)
            out.append((t, by, pk, ("int", ext(un, el.n, el.sg)), []))
    return out


def wrap_bits(v, w, e):
    """value bits (lsb first) -> packed bits of the wrapper, first bit first: right-aligned"""
    # nothing is promised about the padding
    return [None] * (8 * ceil8(w) - w) + [v[i] for i in order(w, e)]


def unwrap_bits(b, w, e):
    b = b[len(b) - w:]
    v = [None] * w
    for x, i in zip(b, order(w, e)):
        v[i] = x
    return v


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C07": c07, "C08": c08, "C13": c13, "C18": c18, "C19": c19, "C20": c20, "C27": c27}
