"""Checks over everything the other checks analyse: no panics (C14), purity and safety (C23)."""
import types
from . import corpus as C, model as M, verify as V, runner as R
from . import checks_struct as CS, checks_lib as CL, checks_slices as CV, checks_enum as CE


def never_panics(cx):
    cx.problems()


class Quiet(R.Run):
    """a run of another check of which only the analysed entries matter"""

    def find(self, tag, where, msg, trace=(), key=None):
        if tag in ("build", "rejected"):
            R.Run.find(self, tag, where, msg, trace, key)

    def finish(self, *a, **k):
        return 0

    def facts(self, *a, **k):
        return None

    def compile_all(self, items, *a, **k):
        return {n: (True, []) for n, _ in items}


def entries_of(run, check):
    """the analysed entries of another check"""
    got = []
    q = Quiet.__new__(Quiet)
    q.__dict__.update(run.__dict__)
    q.findings, q.stats, q.samples, q.cov, q.assumptions, q.anchors = [], V.Stats(), [], {}, [], {}
    q.verify = lambda tasks: got.extend(t[0] for t in tasks)
    check(q)
    seen, out = set(), []
    for cx in got:
        if id(cx.source) not in seen:
            seen.add(id(cx.source))
            out.append(cx)
    run.absorb(q)
    run.findings += q.findings
    return out


def c14(run):
    parts = [("structure round trips", lambda r: CS.structs(r, CS.all_structs(r, 60, 600) + C.endian_structs() + C.slice_structs(), ["rt", "unpack"]), 800),
             ("slice functions", CS.c13, 500), ("tuples", CV.c15, 600), ("vectors", CV.c16, 300), ("integer conversions", CL.c04, 700),
             ("integer wrappers", CL.c05, 1000), ("ways to obtain an integer", CL.c06, 1500), ("enum conversions", CE.c09, 400), ("catch-all enums", CE.c10, 700),
             ("enum names", CE.c11, 2000), ("size queries", CS.c20, 800), ("reserved types", CS.c07, 500)]
    total = 0
    for what, f, floor in parts:
        cxs = entries_of(run, f)
        run.require("entries: " + what, len(cxs), floor)
        run.verify([(cx, never_panics, ()) for cx in cxs])
        total += len(cxs)
    run.assumptions.append("memory for the values and vectors at hand can be allocated, and packed sizes fit the address space")
    return run.finish("translation_validation", "Every function analysed for the other properties (packing, unpacking, slices of unknown length, tuples, vectors, integers, enums, sizes) is interpreted over all inputs with overflow "
                      "checks on. Rule: no path with a possible member ends in a panic, a failed bounds or overflow check, an out-of-bounds access, unreachable code or an abort.",
                      {"programs": total, "disagreements_checked": total})


CHECKS = {"C14": c14}
