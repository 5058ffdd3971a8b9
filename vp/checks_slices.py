"""Checks of vectors and tuples (C15, C16)."""
import random
from . import corpus as C, model as M, verify as V
from .model import *
from .checks_struct import lsb, wrap_bits, unwrap_bits, other_lengths
from .checks_lib import Sheet, int_ty


class Item:
    """a type that packs into a fixed number of bytes: Rust text, bytes, bits of the value at a path, value and constraints of given bits"""

    def __init__(self, rust, size, pack, unpack, decl=()):
        self.rust, self.size, self._pack, self._unpack, self.decl = rust, size, pack, unpack, list(decl)

    def pack(self, path):
        return self._pack(path)

    def unpack(self, bits, tag=""):
        return self._unpack(bits, tag)


def items():
    S1 = Struct("ItA", [Field("a", IntN("u16", 11), 0, 11), Field("b", Bool(), 11, 1), Field("c", IntN("i8", 4), 12, 4)], endian="msb")
    S2 = Struct("ItB", [Field("x", IntN("u32", 24), 0, 24), Field("y", Int("u16"), 24, 16)], endian="lsb")
    out = {"u8": Item("u8", 1, lambda p: lsb(p, 8)[::-1], lambda b, t: (("int", b[::-1]), []))}
    out["i8"] = Item("i8", 1, lambda p: lsb(p, 8)[::-1], lambda b, t: (("int", b[::-1]), []))
    out["bool"] = Item("bool", 1, lambda p: [C0] * 7 + [("l", p, 0)], lambda b, t: (("bool", b[7]), [("bool" + t, b[::-1], [(0, 1)])]))
    for n in (0, 2, 3, 5):
        out["a%d" % n] = Item("[u8; %d]" % n, n, lambda p, n=n: [("l", "%s[%d]" % (p, i), 7 - k) for i in range(n) for k in range(8)],
                              lambda b, t, n=n: (("array", [("int", b[8 * i:8 * i + 8][::-1]) for i in range(n)]), []))
    out["unit"] = Item("()", 0, lambda p: [], lambda b, t: (("unit",), []))
    for key, o, e, nat, w in (("m12", "M", "msb", "u16", 12), ("l12", "L", "lsb", "u16", 12), ("l24", "L", "lsb", "i32", 24), ("m32", "M", "msb", "u32", 32)):
        n, sg = NATIVE[nat], signed(nat)
        out[key] = Item("%ssbInteger<%s, packed_bits::Bits::<%d>, %s>" % (o, nat, w, int_ty(nat, w)), ceil8(w),
                        lambda p, w=w, e=e: wrap_bits(lsb(p + ".0", w), w, e),
                        lambda b, t, w=w, e=e, n=n, sg=sg: (("int", ext(unwrap_bits(b, w, e), n, sg)), []))
    for S in (S1, S2):
        out[S.name] = Item(S.name, S.num_bytes, lambda p, S=S: S.expect_pack(p), lambda b, t, S=S: S.expect_unpack(b), [S])
    out["res"] = Item("ReservedOne<packed_bits::Bits::<12>>", 2, lambda p: [C1] * 16, lambda b, t: (("unit",), []))
    # a tuple is an item, too
    out["tup"] = Item("(u8, [u8; 2])", 3, lambda p: out["u8"].pack(p + ".0") + out["a2"].pack(p + ".1"),
                      lambda b, t: (("tuple", [out["u8"].unpack(b[:8])[0], out["a2"].unpack(b[8:])[0]]), []))
    return out


def head(its):
    done, out = set(), [M.HEADER]
    for i in its:
        for S in i.decl:
            if S.name not in done:
                done.add(S.name)
                out.append(S.decl())
    return "\n".join(out) + "\n"


def bytes_of(arg, lo, n):
    return [("l", "%s[%d]" % (arg, i), 7 - k) for i in range(lo, lo + n) for k in range(8)]


def mkvec(names):
    return "{ let mut v = Vec::new(); %s v }" % " ".join("v.push(%s);" % n for n in names)


def lengths(mx, f):
    """Rust text: f(b) with the length known, one case per length up to mx"""
    return " ".join("if b.len() == %d { return Some(%s(&b[..%d])); }" % (n, f, n) for n in range(mx + 1)) + " None"


def c16(run):
    its = items()
    s = Sheet(head(its.values()))
    deep = run.thorough
    for key, it in its.items():
        sz = it.size
        t = "Vec<%s>" % it.rust
        for k in list(range(6)) + [11]:
            args = ", ".join("x%d: %s" % (i, it.rust) for i in range(k))
            mk = mkvec(["x%d" % i for i in range(k)])
            bits = [b for i in range(k) for b in it.pack("x%d" % i)]
            name = "%s of %d items" % (t, k)
            s.add("%s_%d_v" % (key, k), "(%s) -> Result<Vec<u8>, PackingError>" % args, "let v: %s = %s; v.pack_to_vec()" % (t, mk), V.verify_vpack, (name, bits))
            s.add("%s_%d_s" % (key, k), "(%s) -> Result<(), PackingError>" % ", ".join(filter(None, [args, "o: &mut [u8]"])), "let v: %s = %s; v.pack_to_slice(o)" % (t, mk), V.verify_spack, (name, k * sz, bits))
            s.add("%s_%d_n" % (key, k), "(%s) -> (Result<usize, PackingError>, Result<usize, PackingError>)" % args,
                  "let v: %s = %s; (<%s as PackedStructSlice>::packed_bytes_size(Some(&v)), <%s as PackedStructSlice>::packed_bytes_size(None))" % (t, mk, t, t),
                  V.verify_size_results, (name, (k * sz, "InstanceRequiredForSize")))
        for k in (0, 1, 3) if sz else (3,):
            args = ", ".join("x%d: %s" % (i, it.rust) for i in range(k))
            mk = mkvec(["x%d" % i for i in range(k)])
            for ln in other_lengths(k * sz):
                s.add("%s_%d_f%d" % (key, k, ln), "(%s) -> Result<(), PackingError>" % ", ".join(filter(None, [args, "o: &mut [u8; %d]" % ln])), "let v: %s = %s; v.pack_to_slice(&mut o[..])" % (t, mk),
                      V.verify_fpack, ("%s of %d items" % (t, k), k * sz, ln, [b for i in range(k) for b in it.pack("x%d" % i)]))
        if not sz:
            # items without bytes: how many there were cannot be known
            s.add("%s_u" % key, "(b: &[u8]) -> Result<%s, PackingError>" % t, "<%s as PackedStructSlice>::unpack_from_slice(b)" % t, verify_no_items, (t,))
            for ln in (0, 1, 2, 7, 64):
                s.add("%s_u%d" % (key, ln), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (ln, t), "<%s as PackedStructSlice>::unpack_from_slice(&b[..])" % t, verify_no_items, (t,))
        if sz:
            mx = {1: 12, 2: 13, 3: 16}.get(sz, 4 * sz + 2) * (2 if deep else 1)

            def shape(m, it=it, sz=sz):
                vs, cs = [], []
                for i in range(m):
                    v, c = it.unpack(bytes_of("b", i * sz, sz), "#%d" % i)
                    vs.append(v)
                    cs += c
                return ("vec", vs), cs
            if it.rust == "bool":
                mx = 7
            s.add("%s_u" % key, "(b: &[u8]) -> Option<Result<%s, PackingError>>" % t, lengths(mx, "<%s as PackedStructSlice>::unpack_from_slice" % t), V.verify_dunpack, (t, 0, sz, mx, shape))
            # remainder of any length
            big = [300, 700] + ([3000] if deep and sz == 1 else [])
            for n in big if not it.unpack(bytes_of("b", 0, sz))[1] else []:
                m = n // sz
                exp = ("vec", [it.unpack(bytes_of("b", i * sz, sz))[0] for i in range(m)])
                s.add("%s_u%d" % (key, n), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (m * sz, t), "<%s as PackedStructSlice>::unpack_from_slice(&b[..])" % t, V.verify_unpack, (t, exp, []))
                if sz > 1:
                    s.add("%s_r%d" % (key, n), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (m * sz + 1, t), "<%s as PackedStructSlice>::unpack_from_slice(&b[..])" % t, verify_mod, (t, m * sz + 1, sz))
    # items without a fixed size
    s.add("vv", "(b: &[u8]) -> Result<Vec<Vec<u8>>, PackingError>", "<Vec<Vec<u8>> as PackedStructSlice>::unpack_from_slice(b)", V.verify_err, ("unpacking a vector of vectors", ["InstanceRequiredForSize"]))
    s.add("vvp", "(x: u8) -> Result<Vec<u8>, PackingError>", "let v: Vec<Vec<u8>> = vec![vec![x]]; v.pack_to_vec()", V.verify_err, ("packing a vector of vectors", ["InstanceRequiredForSize"]))
    for k, (t, mk) in enumerate((("Vec<Vec<u8>>", "vec![vec![x]]"), ("Vec<Vec<u8>>", "vec![vec![], vec![x, y]]"), ("Vec<Vec<bool>>", "vec![vec![true], vec![false], vec![]]"), ("Vec<(u8, Vec<u8>)>", "vec![(x, vec![y])]"),
                                 ("Vec<(Vec<u8>, [u8; 2])>", "vec![(vec![x], [y; 2]), (vec![], [x; 2])]"), ("Vec<Vec<Vec<u8>>>", "vec![vec![vec![x]]]"))):
        e = ["InstanceRequiredForSize"]
        s.add("dyn%d_n" % k, "(x: u8, y: u8) -> Result<usize, PackingError>", "let v: %s = %s; <%s as PackedStructSlice>::packed_bytes_size(Some(&v))" % (t, mk, t), V.verify_err, ("the size of a %s" % t, e))
        s.add("dyn%d_z" % k, "() -> Result<usize, PackingError>", "<%s as PackedStructSlice>::packed_bytes_size(None)" % t, V.verify_err, ("the size of a %s" % t, e))
        s.add("dyn%d_v" % k, "(x: u8, y: u8) -> Result<Vec<u8>, PackingError>", "let v: %s = %s; v.pack_to_vec()" % (t, mk), V.verify_err, ("packing a %s" % t, e))
        s.add("dyn%d_s" % k, "(x: u8, y: u8, o: &mut [u8]) -> Result<(), PackingError>", "let v: %s = %s; v.pack_to_slice(o)" % (t, mk), V.verify_err, ("packing a %s into a slice" % t, e))
        s.add("dyn%d_u" % k, "(b: &[u8]) -> Result<%s, PackingError>" % t, "<%s as PackedStructSlice>::unpack_from_slice(b)" % t, V.verify_err, ("unpacking a %s" % t, e))
    n, _ = s.run(run, "vec")
    run.require("vector functions analysed", n, 300)
    run.samples.append({"type": "Vec<(u8, [u8; 2])>", "functions": ["pack_to_vec", "pack_to_slice", "unpack_from_slice", "packed_bytes_size"]})
    run.assumptions.append("vectors of 0..5, 11 and about 300 to 700 items stand for every number of items")
    return run.finish("translation_validation", "Vectors of 18 item types: packing 0 to 11 items into a vector and into a slice of unknown length, unpacking from slices of unknown length (bounded) and of 300 to 700 bytes, all contents at once. "
                      "Rule: item i lies at bytes i*size..(i+1)*size; a remainder gives BufferModMismatch with both sizes, a wrong output length BufferSizeMismatch with both sizes and leaves the output untouched.", {"programs": n, "disagreements_checked": run.stats.get("bits compared", 0)})


def verify_no_items(cx, name):
    """a vector of items without bytes comes back empty, or with an error for bytes that are left over"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = V.result(p["ret"])
        if cx.satisfiable(p["g"]) is None:
            continue
        if ok and not (isinstance(v, dict) and v.get("vec") == []):
            cx.find("value", "unpacking %s gives %s" % (name, str(v)[:80]))
        elif not ok and cx.entails(p["g"], [V.con_len("b.len", 0)], False)[0] is False and not cx.where.endswith(tuple("_u%d" % i for i in (1, 2, 7, 64))):
            cx.find("rejects-valid", "unpacking %s from no bytes fails with %s" % (name, V.err_name(v)))


def verify_mod(cx, name, actual, mod):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = V.result(p["ret"])
        if cx.satisfiable(p["g"]) is None:
            continue
        if ok or V.err_name(v) != "BufferModMismatch":
            cx.find("wrong-error", "unpacking %s from %d bytes %s instead of failing with BufferModMismatch" % (name, actual, "succeeds" if ok else "fails with %s" % V.err_name(v)))
        elif (V.const_of(v["f"]["actual_size"]), V.const_of(v["f"]["modulo_required"])) != (actual, mod):
            cx.find("size-error", "unpacking %s from %d bytes reports %s" % (name, actual, v["f"]))


def tuple_of(its, at=0, arg="b"):
    """value and constraints of a tuple of items at consecutive bytes"""
    vs, cs = [], []
    for i, it in enumerate(its):
        v, c = it.unpack(bytes_of(arg, at, it.size), "@%d" % i)
        vs.append(v)
        cs += c
        at += it.size
    return ("tuple", vs), cs


def c15(run):
    its = items()
    s = Sheet(head(its.values()))
    rnd = random.Random(run.seed * 77 + 15)
    keys = [k for k in its if k != "tup"]
    SL = "<%s as PackedStructSlice>"

    def ty(members):
        return "(%s,)" % ", ".join(members)

    # ---- members of known size: every arity, every type at several positions
    combos = [[k] for k in keys]
    for n in range(1, 11):
        for r in range(len(keys) if n > 1 else 0):
            if r % (2 if n < 6 else 4) == 0 or run.thorough:
                combos.append([keys[(r + 7 * j + n * j) % len(keys)] for j in range(n)])
        for _ in range(6 if run.thorough else 2):
            combos.append([rnd.choice(keys) for _ in range(n)])
    combos.append(["u8"] * 10)
    combos.append(["a0", "unit", "a0"])
    combos.append(["tup", "u8", "tup"])
    ns = 0
    for ci, ks in enumerate(combos):
        mem = [its[k] for k in ks]
        if sum(m.size for m in mem) > 40:
            mem = mem[:max(1, len(mem) // 2)]
        t = ty([m.rust for m in mem])
        n = sum(m.size for m in mem)
        bits = [b for i, m in enumerate(mem) for b in m.pack("x.%d" % i)]
        name = "(%s)" % ", ".join(m.rust.split("<")[0] for m in mem)
        k = "s%d" % ci
        v, c = tuple_of(mem)
        s.add(k + "_v", "(x: %s) -> Result<Vec<u8>, PackingError>" % t, "x.pack_to_vec()", V.verify_vpack, (name, bits))
        s.add(k + "_s", "(x: %s, o: &mut [u8]) -> Result<(), PackingError>" % t, "x.pack_to_slice(o)", V.verify_spack, (name, n, bits))
        s.add(k + "_u", "(b: &[u8]) -> Result<%s, PackingError>" % t, SL % t + "::unpack_from_slice(b)", V.verify_sunpack, (name, n, v, c))
        s.add(k + "_n", "(x: %s) -> (Result<usize, PackingError>, Result<usize, PackingError>)" % t, "(%s::packed_bytes_size(Some(&x)), %s::packed_bytes_size(None))" % (SL % t, SL % t), V.verify_size_results, (name, (n, n)))
        ns += 1
        if ci % 2 == 0 or run.thorough:
            for ln in other_lengths(n) if run.thorough else other_lengths(n)[ci // 2 % 4::4] + [n]:
                s.add("%s_f%d" % (k, ln), "(x: &%s, o: &mut [u8; %d]) -> Result<(), PackingError>" % (t, ln), "x.pack_to_slice(&mut o[..])", V.verify_fpack, (name, n, ln, bits))
                if ln != n:
                    s.add("%s_g%d" % (k, ln), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (ln, t), SL % t + "::unpack_from_slice(&b[..])", V.verify_funpack, (name, n, ln))
    run.stats.add("tuples of statically sized members", ns)
    # ---- one dynamic member, every arity and position
    nd = 0
    dyns = ["u8", "a2", "tup", "bool"]
    for n in range(1, 11):
        for pos in range(n):
            if n > 5 and not run.thorough and (pos + n) % 3 and pos not in (0, n - 1):
                continue
            dk = dyns[(n + pos) % 3] if (n, pos) != (2, 1) else "bool"
            D = its[dk]
            mem = [None if j == pos else its[rnd.choice(["u8", "a2", "i8", "m12", "ItA", "a0", "unit", "a3", "l24"])] for j in range(n)]
            t = ty(["Vec<%s>" % D.rust if m is None else m.rust for m in mem])
            stat = sum(m.size for m in mem if m)
            pre = sum(m.size for m in mem[:pos])
            name = "(%s)" % ", ".join("Vec<%s>" % D.rust if m is None else m.rust.split("<")[0] for m in mem)
            k = "d%d_%d" % (n, pos)
            mx = stat + (3 * D.size + 1 if dk != "bool" else 3)

            def shape(m, mem=mem, pre=pre, D=D, pos=pos):
                vs, cs, at = [], [], 0
                for i, x in enumerate(mem):
                    if x is None:
                        el = []
                        for j in range(m):
                            v, c = D.unpack(bytes_of("b", at, D.size), "#%d" % j)
                            el.append(v)
                            cs += c
                            at += D.size
                        vs.append(("vec", el))
                    else:
                        v, c = x.unpack(bytes_of("b", at, x.size), "@%d" % i)
                        vs.append(v)
                        cs += c
                        at += x.size
                return ("tuple", vs), cs
            s.add(k + "_u", "(b: &[u8]) -> Option<Result<%s, PackingError>>" % t, lengths(mx, SL % t + "::unpack_from_slice"), V.verify_dunpack, (name, stat, D.size, mx, shape))
            for m in (0, 1, 3):
                args = ["x%d: %s" % (i, x.rust) for i, x in enumerate(mem) if x] + ["v%d: %s" % (j, D.rust) for j in range(m)]
                mk = "let t: %s = (%s,);" % (t, ", ".join(mkvec(["v%d" % j for j in range(m)]) if x is None else "x%d" % i for i, x in enumerate(mem)))
                bits = []
                for i, x in enumerate(mem):
                    bits += [b for j in range(m) for b in D.pack("v%d" % j)] if x is None else x.pack("x%d" % i)
                tot = stat + m * D.size
                for ln in other_lengths(tot)[(n + pos + m) % 3::3]:
                    s.add("%s_%d_f%d" % (k, m, ln), "(%s) -> Result<(), PackingError>" % ", ".join(args + ["o: &mut [u8; %d]" % ln]), mk + " t.pack_to_slice(&mut o[..])", V.verify_fpack, (name, tot, ln, bits))
                s.add("%s_%d_v" % (k, m), "(%s) -> Result<Vec<u8>, PackingError>" % ", ".join(args), mk + " t.pack_to_vec()", V.verify_vpack, (name, bits))
                s.add("%s_%d_s" % (k, m), "(%s) -> Result<(), PackingError>" % ", ".join(args + ["o: &mut [u8]"]), mk + " t.pack_to_slice(o)", V.verify_spack, (name, tot, bits))
                s.add("%s_%d_n" % (k, m), "(%s) -> (Result<usize, PackingError>, Result<usize, PackingError>)" % ", ".join(args), mk + " (%s::packed_bytes_size(Some(&t)), %s::packed_bytes_size(None))" % (SL % t, SL % t),
                      V.verify_size_results, (name, (tot, "InstanceRequiredForSize")))
            nd += 1
    run.stats.add("tuples with one dynamic member", nd)
    # ---- more than one: an error when unpacking, back to back when packing
    n2 = 0
    for n in range(2, 11):
        for a in range(n):
            for b in range(a + 1, n):
                if not run.thorough and n > 4 and (a * 3 + b * 5 + n) % 7:
                    continue
                mem = ["Vec<u8>" if j in (a, b) else "u8" for j in range(n)]
                t = ty(mem)
                k = "m%d_%d_%d" % (n, a, b)
                s.add(k + "_u", "(b: &[u8]) -> Result<%s, PackingError>" % t, SL % t + "::unpack_from_slice(b)", V.verify_err, ("unpacking (%s)" % ", ".join(mem), ["MoreThanOneDynamicType"]))
                args = ["x%d: u8" % j for j in range(n) if j not in (a, b)] + ["p: u8", "q: u8", "r: u8"]
                mk = "let t: %s = (%s,);" % (t, ", ".join(mkvec(["p", "q"]) if j == a else mkvec(["r"]) if j == b else "x%d" % j for j in range(n)))
                bits = []
                for j in range(n):
                    for x in (["p", "q"] if j == a else ["r"] if j == b else ["x%d" % j]):
                        bits += lsb(x, 8)[::-1]
                s.add(k + "_v", "(%s) -> Result<Vec<u8>, PackingError>" % ", ".join(args), mk + " t.pack_to_vec()", V.verify_vpack, ("(%s)" % ", ".join(mem), bits))
                n2 += 1
    for n in range(3, 11):
        t = ty(["Vec<u8>"] * n)
        s.add("m%d_all" % n, "(b: &[u8]) -> Result<%s, PackingError>" % t, SL % t + "::unpack_from_slice(b)", V.verify_err, ("unpacking %d vectors" % n, ["MoreThanOneDynamicType"]))
        n2 += 1
    run.stats.add("tuples with several dynamic members", n2)
    # ---- tuples in tuples
    for i, (t, val) in enumerate([("((u8, Vec<u8>), u8)", lambda n: ("tuple", [("tuple", [("int", byte(0)), ("vec", [("int", byte(1 + j)) for j in range(n - 2)])]), ("int", byte(n - 1))])),
                                  ("(u8, (Vec<u8>, u8))", lambda n: ("tuple", [("int", byte(0)), ("tuple", [("vec", [("int", byte(1 + j)) for j in range(n - 2)]), ("int", byte(n - 1))])])),
                                  ("(u8, (u8, u8), Vec<u8>)", lambda n: ("tuple", [("int", byte(0)), ("tuple", [("int", byte(1)), ("int", byte(2))]), ("vec", [("int", byte(3 + j)) for j in range(n - 3)])]))]):
        for n in range(3, 9):
            s.add("t%d_%d" % (i, n), "(b: &[u8; %d]) -> Result<%s, PackingError>" % (n, t), SL % t + "::unpack_from_slice(&b[..])", V.verify_unpack, (t, val(n), []))
    # ---- long members
    def arr(n):
        return Item("[u8; %d]" % n, n, lambda p: [("l", "%s[%d]" % (p, i), 7 - k) for i in range(n) for k in range(8)], lambda b, t: (("array", [("int", b[8 * i:8 * i + 8][::-1]) for i in range(n)]), []))
    for ci, mem in enumerate([[arr(200), arr(100), its["u8"]], [its["u8"], arr(300), its["a2"]], [arr(70), arr(70), arr(70), arr(70), its["i8"]], [arr(255), its["u8"], arr(256), its["m12"]]]):
        t = ty([m.rust for m in mem])
        n = sum(m.size for m in mem)
        name = "(%s)" % ", ".join(m.rust.split("<")[0] for m in mem)
        s.add("b%d_v" % ci, "(x: &%s) -> Result<Vec<u8>, PackingError>" % t, "x.pack_to_vec()", V.verify_vpack, (name, [b for i, m in enumerate(mem) for b in m.pack("x.%d" % i)]))
        s.add("b%d_u" % ci, "(b: &[u8; %d]) -> Result<%s, PackingError>" % (n, t), SL % t + "::unpack_from_slice(&b[..])", V.verify_unpack, (name, tuple_of(mem)[0], []))
        s.add("b%d_n" % ci, "(x: &%s) -> (Result<usize, PackingError>, Result<usize, PackingError>)" % t, "(%s::packed_bytes_size(Some(x)), %s::packed_bytes_size(None))" % (SL % t, SL % t), V.verify_size_results, (name, (n, n)))
    for n in (258, 300, 515):
        s.add("bd%d" % n, "(b: &[u8; %d]) -> Result<(u8, Vec<u8>, u8), PackingError>" % n, "<(u8, Vec<u8>, u8) as PackedStructSlice>::unpack_from_slice(&b[..])", V.verify_unpack,
              ("(u8, Vec<u8>, u8)", ("tuple", [("int", byte(0)), ("vec", [("int", byte(1 + j)) for j in range(n - 2)]), ("int", byte(n - 1))]), []))
    n, _ = s.run(run, "tup")
    run.require("tuple functions analysed", n, 815)
    run.samples.append({"type": "(u8, Vec<[u8; 2]>, i8)", "functions": ["pack_to_vec", "pack_to_slice", "unpack_from_slice", "packed_bytes_size"]})
    run.assumptions.append("a dynamic member of 0 to 3 items stands for every number of items")
    return run.finish("translation_validation", "Tuples of 1 to 10 members. Static members: slices of unknown length, all contents. One dynamic member at every position of every arity up to five (sampled positions beyond): every length up to three items and one byte, all contents. "
                      "Several dynamic members: any length. Rule: members lie back to back in order, the dynamic one takes what the others leave; wrong lengths give the size errors with the right numbers and leave the output untouched.",
                      {"programs": n, "disagreements_checked": run.stats.get("bits compared", 0)})


def byte(i):
    return lsb("b[%d]" % i, 8)


CHECKS = {"C15": c15, "C16": c16}
