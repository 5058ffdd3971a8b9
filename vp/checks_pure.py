"""Purity and safety of the library and of derived code (C23)."""
import json, os, re
from . import build, corpus as C, model as M, checks_struct as CS, checks_enum as CE, checks_lib as CL, checks_slices as CV, checks_show as SH, checks_whole as CW
from .model import *

# what touches the world outside the arguments
DENIED = re.compile(
    r"^(std|core|alloc)::("
    r"io|fs|net|env|process|thread|sync|os|cell|backtrace|random|arch|simd|"
    r"time::(Instant|SystemTime)|collections::(HashMap|HashSet|hash_map|hash_set)|hash::(RandomState|DefaultHasher|random)|"
    r"panic::(catch_unwind|set_hook|take_hook|update_hook|resume_unwind)|alloc::set_alloc_error_hook|"
    r"ptr::(read|write)_volatile|intrinsics::(volatile_|atomic_|unchecked_|breakpoint)|hint::black_box"
    r")\b")


def plain_path(p):
    """a path without generic arguments, and the type an associated item belongs to"""
    p = re.sub(r"^<(.*?)( as .*)?>::", lambda m: m.group(1) + "::", p) if p.startswith("<") else p
    while True:
        q = re.sub(r"::<[^<>]*>|<[^<>]*>", "", p)
        if q == p:
            return p
        p = q


def denied(p):
    return bool(DENIED.match(plain_path(p)))


def judge_facts(rep, mine):
    """[(where, what)] for every construct of the selected crates that is unsafe or reaches outside its arguments"""
    bad, seen = [], {"functions": 0, "calls": 0, "types": 0, "fields": 0, "impls": 0}
    for f in rep["fns"]:
        if f["crate"] not in mine:
            continue
        where = "%s (%s)" % (f["path"], short(f["span"]))
        seen["functions"] += 1
        if f.get("unsafe"):
            bad.append((where, "is an unsafe function"))
        for x in f.get("unsafe_ops", []):
            # other unsafe operations need an unsafe block, which is looked for in the source
            if x.startswith("pointer turned"):
                bad.append((where, x))
        for x in f.get("foreign", []):
            bad.append((where, "calls the foreign function " + x))
        for x in f.get("statics", []):
            if " " in x.replace(" as ", ""):
                bad.append((where, "uses the state " + x))
        for a, g in f.get("calls", []):
            seen["calls"] += 1
            if denied(a):
                bad.append((where, "calls " + a))
            elif denied(g) and not g.startswith("<"):
                bad.append((where, "calls " + g))
        for t in f.get("types", []):
            seen["types"] += 1
            if denied(t):
                bad.append((where, "works on a %s" % t))
        for r in f.get("refs", []):
            if denied(r):
                bad.append((where, "uses " + r))
    for s in rep["statics"]:
        if s["mutable"] or not s["freeze"] or s["tls"]:
            bad.append(("static %s" % s["path"], "is %s state (%s)" % ("thread-local" if s["tls"] else "mutable" if s["mutable"] else "interior-mutable", s["ty"])))
    for a in rep["adts"]:
        if a["crate"] in mine:
            for t in a["types"]:
                seen["fields"] += 1
                if denied(t):
                    bad.append(("type %s" % a["path"], "has a field of type %s" % t))
    for i in rep["impls"]:
        seen["impls"] += 1
        # the standard Copy derive adds one of these
        if i["unsafe"] and "TrivialClone" not in (i["trait"] or ""):
            bad.append((short(i["span"]), "unsafe implementation of %s" % i["trait"]))
    for b in rep["unsafe_blocks"]:
        bad.append((short(b), "unsafe block"))
    return bad, seen


def short(span):
    p = span.split(":")
    return ":".join([os.path.relpath(p[0], build.REPO) if p[0].startswith(build.REPO) else os.path.basename(p[0])] + p[1:2])


IMPURE = """#![allow(warnings)]
extern crate packed_struct; extern crate packed_struct_codegen;
use std::sync::atomic::*; use std::cell::*;
static COUNT: AtomicUsize = AtomicUsize::new(0);
static mut LAST: u8 = 0;
static TABLE: [u8; 4] = [1, 2, 3, 4];
thread_local! { static MINE: Cell<u8> = Cell::new(0); }
extern "C" { fn getpid() -> i32; }
pub struct Holds { c: Cell<u8> }
pub union Both { a: u8, b: i8 }
pub fn w_atomic(x: u8) -> u8 { COUNT.fetch_add(1, Ordering::SeqCst) as u8 ^ x }
pub fn w_mutable(x: u8) -> u8 { unsafe { let r = LAST; LAST = x; r } }
pub fn w_local(x: u8) -> u8 { MINE.with(|c| { let r = c.get(); c.set(x); r }) }
pub fn w_print(x: u8) -> u8 { println!("{}", x); x }
pub fn w_time(x: u8) -> u8 { std::time::Instant::now().elapsed().as_secs() as u8 ^ x }
pub fn w_env(x: u8) -> u8 { x ^ std::env::args().count() as u8 }
pub fn w_foreign(x: u8) -> u8 { x ^ unsafe { getpid() } as u8 }
pub fn w_hash(x: u8) -> u8 { let mut m = std::collections::HashMap::new(); m.insert(x, x); *m.keys().next().unwrap() }
pub fn w_raw(x: &u8) -> u8 { let p = x as *const u8; unsafe { *p } }
pub fn w_address(x: &u8) -> u8 { (x as *const u8 as usize) as u8 }
pub fn w_union(x: u8) -> i8 { let b = Both { a: x }; unsafe { b.b } }
pub fn w_once(x: u8) -> u8 { static O: std::sync::OnceLock<u8> = std::sync::OnceLock::new(); *O.get_or_init(|| x) }
pub fn w_refcell(x: u8) -> u8 { let c = RefCell::new(x); let r = *c.borrow(); r }
pub fn w_block(x: u8) -> u8 { unsafe { x } }
pub fn w_table(x: u8) -> u8 { TABLE[(x & 3) as usize] }
pub fn w_plain(x: u8) -> u8 { x.wrapping_add(1) }
"""
BAD = ["atomic", "mutable", "local", "print", "time", "env", "foreign", "hash", "address", "once", "refcell"]
EFFECT = ["atomic", "mutable", "local", "print", "foreign", "once"]


def selftest(run):
    """the rules must find what is planted for them, and nothing in the harmless functions"""
    rep = run.facts("impure", IMPURE)
    if rep is None:
        return
    bad, _ = judge_facts(rep, {"impure"})
    hit = {n for n in BAD if any(w.startswith("w_%s" % n) for w, _ in bad)}
    blocks = sum(m == "unsafe block" for _, m in bad)
    hit |= {n for n in ["static COUNT", "static LAST", "static MINE", "type Holds"] if any(w.startswith(n) or n.split()[1] in w for w, _ in bad)}
    run.require("examples the rules must find", len(hit) + blocks, len(BAD) + 9)
    if any(w.startswith(("w_table", "w_plain")) for w, _ in bad):
        raise RuntimeError("a rule reports a harmless function: %r" % [b for b in bad if "table" in b[0] or "plain" in b[0]])
    got, errs = run.crates([("impure", IMPURE)])
    if got["impure"] is None:
        return
    t, es = got["impure"]
    run.require("examples the interpreter must find", sum(bool(es["w_" + n]["effects"]) for n in EFFECT if "w_" + n in es), len(EFFECT))
    if es["w_plain"]["effects"] or es["w_table"]["effects"]:
        raise RuntimeError("an effect is reported for a harmless function")


def effects(run, cxs):
    n = 0
    for cx in cxs:
        n += 1
        for x in cx.e.get("effects") or []:
            run.find("effect", cx.where, "reaches outside its arguments: %s" % x)
    return n


def lint(run, cfg):
    """the library with unsafe code forbidden"""
    d = os.path.join(run.dir, "forbid-" + cfg)
    build._host_crate(d, cfg)
    r = build.sh(["cargo", "+nightly", "rustc", "--offline", "-p", "packed_struct", "--lib", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml"), "--", "--emit=metadata", "-Funsafe_code", "-Awarnings"],
                 env={"CARGO_TARGET_DIR": os.path.join(d, "t"), "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"})
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["message"].get("code"):
            msg, sp = m["message"], m["message"]["spans"]
            run.find("unsafe", "%s:%d" % (sp[0]["file_name"], sp[0]["line_start"]) if sp else "packed_struct", msg["message"])
    if r.returncode != 0 and not any(f.tag == "unsafe" for f in run.findings):
        run.stats.setdefault("open", []).append("the library with unsafe code forbidden (%s): %s" % (cfg, r.stderr[-300:]))
    run.stats.add("builds with unsafe code forbidden", int(r.returncode == 0))


def derived_text(run):
    ss = C.width_structs()[::4] + C.bool_structs()[:3] + C.enum_structs()[::2] + C.enum_structs(True)[::2] + C.reserved_structs()[::3] + C.nested_structs()[::2] + C.array_structs()[::2] + C.large_structs()[:3]
    ss += C.endian_structs()[::4] + C.notation_structs()[::6] + C.random_structs(run.seed + 23, 300 if run.thorough else 60, "Rp")
    seen = set()
    ss = [s for s in ss if not (s.name in seen or seen.add(s.name))]
    return ss, M.render(ss, ["pack", "unpack", "rt", "size", "spack", "sunpack"])


def c23(run):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        lints = [ex.submit(lint, run, cfg) for cfg in ("serde", "none")]
        return _c23(run, lints)


def _c23(run, lints):
    selftest(run)
    total = {}
    for cfg, floor in (("serde", 1500), ("none", 1000)):
        ss, text = derived_text(run)
        rep = run.facts("pure_" + cfg, text, cfg)
        if rep is None:
            continue
        bad, seen = judge_facts(rep, {"packed_struct", "pure_" + cfg})
        for w, m in bad:
            run.find("impure", w, m)
        nlib = sum(f["crate"] == "packed_struct" for f in rep["fns"])
        run.require("library functions (%s)" % cfg, nlib, floor)
        run.require("derived functions (%s)" % cfg, seen["functions"] - nlib, 1000)
        run.require("calls (%s)" % cfg, seen["calls"], 4000)
        for k, v in seen.items():
            total[k] = total.get(k, 0) + v
        run.files |= {f["span"].split(":")[0] for f in rep["fns"] if f["crate"] == "packed_struct" and f["span"].startswith(build.REPO)}
    n = 0
    parts = [("structures", lambda r: CS.structs(r, ss_small(r), ["rt", "unpack"]), 200), ("slice functions", CS.c13, 500), ("tuples", CV.c15, 600), ("vectors", CV.c16, 300), ("integer conversions", CL.c04, 700), ("integer wrappers", CL.c05, 1000),
             ("ways to obtain an integer", CL.c06, 1500), ("enum conversions", CE.c09, 400), ("catch-all enums", CE.c10, 700), ("size queries", CS.c20, 800), ("visualisation", SH.c21, 120)] + ([("enum names", CE.c11, 2000)] if run.thorough else [])
    for what, f, floor in parts:
        cxs = CW.entries_of(run, f)
        k = effects(run, cxs)
        run.require("entries: " + what, k, floor)
        n += k
    for l in lints:
        l.result()
    run.stats.add("functions analysed", n)
    run.stats.add("entries interpreted for effects", n)
    for k, v in total.items():
        run.stats.add("facts: " + k, v)
    run.samples.append({"rule": "a call, type, static or constant path matching " + DENIED.pattern[:300]})
    return run.finish("other", "Two rules. (1) Over the MIR, signatures, fields, statics and impls of every function of the library and of the derived code: no unsafe operation, block, function or impl; no mutable, interior-mutable or "
                      "thread-local static; no foreign function; no call, type or constant of the input/output, time, environment, thread, synchronisation, cell, random or hash-seed modules; no pointer turned into a number. "
                      "(2) Over everything reached from %d analysed entries, through the standard library and bitvec: no static with state, thread-local, atomic or foreign function is met by the interpreter. The library also compiles with unsafe code forbidden. "
                      "Both rules are first tried on functions that break them." % n)


def ss_small(run):
    return CS.all_structs(run, 40, 400)[::3] + C.endian_structs()[::3]


CHECKS = {"C23": c23}
