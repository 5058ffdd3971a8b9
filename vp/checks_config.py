"""The library and derived code in every feature set (C25)."""
import re
from concurrent.futures import ThreadPoolExecutor
from . import build, corpus as C, model as M, checks_struct as CS, checks_pure as CP, runner as R
from .model import *

BASES = {"default": (True, []), "none": (False, []), "alloc": (False, ["alloc"]), "std_alloc": (True, ["alloc"])}
QUICK = ["default", "serde", "none", "alloc", "b64", "b256", "none_serde", "none_b64", "none_b256", "alloc_serde", "alloc_b256", "std_alloc", "b64_256"]


def feature_sets():
    """every combination of the features: {name: (std, alloc, serde, widths)}"""
    out = {}
    for b, (df, fe) in BASES.items():
        for s in (False, True):
            for w in ([], ["byte_types_64"], ["byte_types_256"], ["byte_types_64", "byte_types_256"]):
                wn = {0: "", 1: "b64" if w == ["byte_types_64"] else "b256", 2: "b64_256"}[len(w)]
                name = "_".join(x for x in ([b] if b != "default" else []) + (["serde"] if s else []) + ([wn] if wn else []))
                name = name or "default"
                build.FEATURE_SETS.setdefault(name, dict(default=df, features=fe + (["use_serde"] if s else []) + w))
                out[name] = dict(std=df, alloc=df or bool(fe), serde=s, bytes=256 if "byte_types_256" in w else 64 if w else 32)
    return out


def describe(cfg):
    f = build.FEATURE_SETS[cfg]
    return "features [%s]%s" % (", ".join(f["features"]), "" if f["default"] else " without the default features")


def head(f):
    h = "" if f["std"] else "#![no_std]\n"
    return h


def tail(f):
    return "\nextern crate alloc;\n" if f["alloc"] and not f["std"] else ""


def sample(run, f):
    """declarations of every kind, with wide ones where the feature set has the widths"""
    ss = C.width_structs()[::9] + C.bool_structs()[:2] + C.enum_structs()[::3] + C.enum_structs(True)[::3] + C.reserved_structs()[::6] + C.nested_structs()[::4] + C.array_structs()[::5] + C.large_structs()[:2]
    ss += C.endian_structs()[::9] + C.notation_structs()[::14] + C.random_structs(run.seed + 25, 120 if run.thorough else 12, "Rc")
    top = f["bytes"] * 8 - 1
    for one in (False, True):
        p = C.Packer("Wf%d_%d" % (top, one), "msb", 3)
        for w in [x for x in (129, 248, 249, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2040, 2047) if x <= top]:
            p.add(Res(one, w), w, (w * 3) % 8)
            p.add(IntN("u16", 11), 11)
        p.close()
        ss += p.out
    seen = set()
    return [s for s in ss if not (s.name in seen or seen.add(s.name))]


def extras(f):
    """every derive and public trait, used without the standard library's prelude"""
    t = M.HEADER + """
use packed_struct::PackedStructInfo;
#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)] pub enum Plain { A = 1, B = 2, LongName = 255 }
#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)] pub enum Inferred { A = -1, B = 300 }
#[derive(PrimitiveEnum_i64, Clone, Copy, Debug, PartialEq)] pub enum Wide { A = -1, B = 300 }
#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(endian="lsb", bit_numbering="msb0")]
pub struct Everything { #[packed_field(bits="0..4", ty="enum")] a: EnumCatchAll<Plain>, #[packed_field(bits="4")] b: bool, #[packed_field(bits="5..=7")] c: Integer<u8, packed_bits::Bits<3>>,
  #[packed_field(bytes="1..=2")] d: u16, #[packed_field(bytes="3..=4", element_size_bits="4")] e: [Integer<u8, packed_bits::Bits<4>>; 4], #[packed_field(bytes="5", element_size_bytes="1")] f: [ReservedOne<packed_bits::Bits<8>>; 1],
  #[packed_field(bytes="6..=7", element_size_bytes="1", ty="enum")] g: [Plain; 2], #[packed_field(bytes="8..=15")] h: i64 }
#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(size_bytes="20", bit_numbering="lsb0")]
pub struct Outer { #[packed_field(bits="128:0")] a: Inner1, #[packed_field(element_size_bytes="1", bits="159:144")] b: [u8; 2] }
#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(size_bytes="17", bit_numbering="msb0")]
pub struct Inner1 { #[packed_field(bits="7..=135")] a: Tiny }
#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(size_bytes="17", bit_numbering="msb0", endian="msb")]
pub struct Tiny { #[packed_field(bits="7..=135")] a: ReservedZero<packed_bits::Bits<129>> }
pub fn w_prim(x: u8) -> (Option<Plain>, Option<Inferred>, Option<Wide>) { (Plain::from_primitive(x), Inferred::from_primitive(x as i16), Wide::from_primitive(x as i64)) }
pub fn w_str(x: &str) -> (Option<Plain>, Option<Inferred>, Option<Wide>, Option<EnumCatchAll<Plain>>) { (Plain::from_str(x), Inferred::from_str_lower(x), Wide::from_str(x), EnumCatchAll::<Plain>::from_str_lower(x)) }
pub fn w_pack(x: &Everything, y: &Outer) -> Result<([u8; 16], [u8; 20]), PackingError> { Ok((x.pack()?, y.pack()?)) }
pub fn w_unpack(x: &[u8; 16]) -> Result<Everything, PackingError> { Everything::unpack(x) }
pub fn w_slice(x: &Everything, o: &mut [u8]) -> Result<usize, PackingError> { x.pack_to_slice(o)?; Everything::unpack_from_slice(o)?; Ok(Everything::packed_bits() + Everything::packed_bytes_size(Some(x))?) }
pub fn w_tuple(x: &(Everything, u8, [u8; 3]), o: &mut [u8]) -> Result<(Everything, u8), PackingError> { x.pack_to_slice(o)?; <(Everything, u8)>::unpack_from_slice(o) }
pub fn w_int(x: u16) -> (Integer<u16, packed_bits::Bits<12>>, MsbInteger<u16, packed_bits::Bits<12>, Integer<u16, packed_bits::Bits<12>>>, LsbInteger<u16, packed_bits::Bits<12>, Integer<u16, packed_bits::Bits<12>>>) { let i: Integer<u16, packed_bits::Bits<12>> = x.into(); (i, i.into(), i.into()) }
pub fn w_error(e: &PackingError, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Display::fmt(e, f)?; core::fmt::Debug::fmt(e, f) }
pub fn w_fmt(e: &Everything, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(e, f) }
"""
    if f["alloc"]:
        v = "Vec" if f["std"] else "alloc::vec::Vec"
        t += """pub fn w_name(x: Plain, o: &mut core::fmt::Formatter) -> core::fmt::Result { let s = x.to_display_str(); let v = Plain::all_variants(); core::fmt::Display::fmt(&*s, o)?; core::fmt::Debug::fmt(&*v, o) }
pub fn w_names(x: &EnumCatchAll<Plain>, o: &mut core::fmt::Formatter) -> core::fmt::Result { let s = x.to_display_str(); let v = EnumCatchAll::<Plain>::all_variants(); core::fmt::Display::fmt(&*s, o)?; core::fmt::Debug::fmt(&*v, o) }
pub fn w_show(x: &Everything, o: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Display::fmt(x, o) }
pub fn w_vec(x: &Everything) -> Result<%s<u8>, PackingError> { x.pack_to_vec() }
pub fn w_vecs(x: &[u8]) -> Result<%s<Everything>, PackingError> { PackedStructSlice::unpack_from_slice(x) }
""" % (v, v)
    else:
        t += "pub fn w_name(x: Plain) -> (&'static str, &'static [Plain]) { (x.to_display_str(), Plain::all_variants()) }\n"
    if f["std"]:
        t += "pub fn w_std(e: PackingError) -> Box<dyn std::error::Error> { Box::new(e) }\n"
    return t


def widths(f):
    """every width type the feature set promises, with the number of bytes it takes"""
    n = f["bytes"] * 8
    t = M.HEADER + """use packed_struct::types::bits::*;
pub fn len<B: NumberOfBits<Bytes = Bytes<N>>, const N: usize>() {}
pub fn full<B: BitsFullBytes>() {} pub fn part<B: BitsPartialBytes>() {}
pub fn all() {
"""
    for i in range(1, n):
        t += "len::<Bits<%d>, %d>(); %s::<Bits<%d>>();\n" % (i, (i + 7) // 8, "part" if i % 8 else "full", i)
    return t + "}\n", n - 1


OUTSIDE = {"std": re.compile(r"\bstd::"), "alloc": re.compile(r"\balloc::(alloc|borrow|boxed|collections|ffi|fmt|rc|slice|str|string|sync|task|vec|raw_vec|macros)\b")}


def judge(rep, mine, banned):
    """[(where, what)] for references of the given crates to the banned ones"""
    bad, n = [], 0
    for f in rep["fns"]:
        if f["crate"] not in mine:
            continue
        n += 1
        where = "%s (%s)" % (f["path"], CP.short(f["span"]))
        for kind, xs in (("calls", [x for c in f.get("calls", []) for x in c]), ("works on", f.get("types", [])), ("uses", f.get("refs", []))):
            for x in xs:
                for b in banned:
                    if OUTSIDE[b].search(x):
                        bad.append((where, "%s %s, of the %s crate" % (kind, x, b)))
    for a in rep["adts"]:
        if a["crate"] in mine:
            for t in a["types"]:
                for b in banned:
                    if OUTSIDE[b].search(t):
                        bad.append(("type %s" % a["path"], "has a field of type %s, of the %s crate" % (t, b)))
    for c in rep["crates"]:
        if c in banned:
            bad.append(("crate graph", "the %s crate is linked" % c))
    return bad, n


LEAK = """#![no_std]
#![allow(warnings)]
extern crate packed_struct; extern crate packed_struct_codegen; extern crate alloc; extern crate std;
pub fn w_alloc(x: u8) -> alloc::boxed::Box<u8> { alloc::boxed::Box::new(x) }
pub fn w_vec(x: &[u8]) -> usize { let v = x.to_vec(); v.len() }
pub fn w_std(x: u8) { let s = std::ffi::OsString::new(); }
pub fn w_core(x: u8) -> Option<u8> { x.checked_add(1) }
"""


def selftest(run):
    rep = run.facts("leak", LEAK, "none")
    if rep is None:
        return
    bad, _ = judge(rep, {"leak"}, ["std", "alloc"])
    hit = sum(any(w.startswith(n) for w, _ in bad) for n in ("w_alloc", "w_vec", "w_std")) + sum("crate is linked" in m for _, m in bad)
    run.require("examples the rule must find", hit, 5)
    if any(w.startswith("w_core") for w, _ in bad):
        raise RuntimeError("the rule reports a function that only uses core")


def c25(run):
    fss = feature_sets()
    cfgs = list(fss) if run.thorough else QUICK
    build.driver()
    failed = {}

    def lib(cfg):
        try:
            build.lib(cfg)
        except build.BuildError as e:
            failed[cfg] = str(e)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lib, cfgs))
    for c in cfgs:
        if c in failed:
            run.find("build", "the library with %s" % describe(c), "does not compile: %s" % failed[c].strip()[:1200])
    ok = [c for c in cfgs if c not in failed]
    run.stats.add("feature sets the library was compiled with", len(cfgs))
    if "none" in ok:
        selftest(run)

    # type checking and paths
    def one(cfg):
        f = fss[cfg]
        ss = sample(run, f)
        fns = ["pack", "unpack", "rt", "size", "spack", "sunpack"]
        text = head(f) + M.render(ss, fns)
        if f["alloc"]:
            text += "\n" + "\n".join(M.FNS["vpack"].format(n=s.name, t=s.name).replace("Vec<", "Vec<" if f["std"] else "alloc::vec::Vec<") for s in ss[::3])
        wt, nw = widths(f)
        res = []
        for nm, tx in (("structs", text), ("extras", head(f) + extras(f)), ("widths", head(f) + wt)):
            res.append((nm, tx, run_facts(run, "%s_%s" % (cfg, nm), tx + tail(f), cfg)))
        return cfg, ss, nw, res
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, ok))
    for cfg, ss, nw, res in got:
        f = fss[cfg]
        banned = [] if f["std"] else ["std"] if f["alloc"] else ["std", "alloc"]
        for nm, text, (rep, err) in res:
            if rep is None:
                run.find("build", "derived code (%s) with %s" % (nm, describe(cfg)), "does not compile: %s" % R.first_error(err))
                continue
            if "unfinished" in rep:
                run.unfinished.append(cfg)
                run.stats.setdefault("open", []).append("witness crate %s_%s: %s" % (cfg, nm, rep["unfinished"]))
                continue
            run.files |= {x["span"].split(":")[0] for x in rep["fns"] if x["crate"] == "packed_struct" and x["span"].startswith(build.REPO)}
            bad, n = judge(rep, {"packed_struct", "%s_%s" % (cfg, nm)}, banned)
            for w, m in sorted(set(bad)):
                run.find("outside", "%s with %s" % (w, describe(cfg)), m)
            if nm == "structs":
                run.require("functions of the library and derived code (%s)" % cfg, n, 1500)
            run.stats.add("functions whose paths were resolved", n)
            run.stats.add("functions analysed", n)
        run.stats.add("declarations type-checked", len(ss))
        run.stats.add("width types type-checked", nw)
    # one width too many must not pass for the rule to mean anything; the wrong number of bytes neither
    prob = [("w7", "len::<Bits<7>, 2>();"), ("w8", "len::<Bits<8>, 2>();"), ("p8", "part::<Bits<8>>();"), ("f9", "full::<Bits<9>>();")]
    if "none" in ok:
        base, _ = widths(fss["none"])
        r = run.compile_all([("bad" + n, head(fss["none"]) + base[:-2] + x + "}\n") for n, x in prob], "none")
        for n, x in prob:
            if r["bad" + n][0]:
                run.find("widths", "types_bits.rs", "accepted: %s" % x)

    # what the functions do
    for cfg in ok:
        f = fss[cfg]
        ss = sample(run, f)
        deep = run.thorough or cfg in ("none", "alloc", "b64", "b256")
        wide = [s for s in ss if s.name.startswith("Wf")]
        take = ss if deep else [s for s in ss[::4] if s not in wide] + wide
        ctxs = run.structs(take, ["pack", "unpack"], cfg)
        run.verify([t for s in take for g in ("pack", "unpack") for t in CS.task(run, ctxs, s, g)])
        run.require("derived functions interpreted (%s)" % cfg, len(ctxs), len(take) * 2)
    run.samples.append({"feature set": "none", "declarations": [s.decl() for s in sample(run, fss["default"])[:2]]})
    return run.finish("other", "For each feature set (%s) the library is compiled; witness crates with every kind of declaration, every derive, every public trait and every promised width type are type-checked against it, `#![no_std]` where "
                      "the standard library is off. Rule: without the default features, no resolved path, type, field or linked crate of the library or of derived code belongs to std (nor to alloc, unless that feature is on). "
                      "Derived pack and unpack functions are then interpreted over all inputs in each feature set and compared with the same layout oracle as C01 and C02." % ", ".join(cfgs))


def run_facts(run, name, text, cfg):
    import os
    p = os.path.join(run.dir, name + ".rs")
    with open(p, "w") as fh:
        fh.write(text)
    return build.analyse(p, cfg=cfg, mode="facts")


CHECKS = {"C25": c25}
