"""The documentation a derive attaches to a structure (C22)."""
import html, re
from . import corpus as C, model as M, checks_struct as CS
from .model import *

CELL = re.compile(r"<t[dh][^>]*>(.*?)</t[dh]>", re.S)
ROW = re.compile(r"<tr[^>]*>(.*?)</tr>", re.S)
RANGE = re.compile(r"^(\d+)(?:\s*(?::|\.\.=|-|\u2013)\s*(\d+))?$")


def norm(t):
    return re.sub(r"\s+", "", html.unescape(t))


def shown_type(f, el):
    return norm(f.ty if f.ty and f.count is None else el.rust)


def verify_docs(s, text):
    """[(row or None, message)] for what the documentation of a structure gets wrong"""
    bad = []
    head, sep, rest = text.partition("<table")
    m = re.search(r"(\d+)\s+bytes?\b", head)
    if not m:
        bad.append(("size", "the packed size is not stated"))
    elif int(m.group(1)) != s.num_bytes:
        bad.append(("size", "the size is stated as %s bytes; the structure packs into %d" % (m.group(1), s.num_bytes)))
    if not sep:
        return bad + [("table", "there is no table")]
    body = re.search(r"<tbody[^>]*>(.*?)</tbody>", rest, re.S)
    rows = ROW.findall(body.group(1) if body else rest.partition("</thead>")[2])
    want = [(f.path_name + suf, a, a + w - 1, shown_type(f, el)) for f in s.fields for suf, el, a, w in f.elems()]
    if "</table>" not in rest:
        bad.append(("table", "the table is not closed"))
    if len(rows) != len(want):
        bad.append(("rows", "%d rows instead of %d: %s" % (len(rows), len(want), [CELL.findall(r)[1:2] for r in rows][:8])))
        return bad
    for r, (name, a, b, ty) in zip(rows, want):
        cells = [html.unescape(c).strip() for c in CELL.findall(r)]
        if len(cells) != 3:
            bad.append((name, "the row has %d cells: %r" % (len(cells), r[:100])))
            continue
        if cells[1] != name:
            bad.append((name, "the row of %s is named %r" % (name, cells[1])))
        m = RANGE.match(cells[0])
        if not m:
            bad.append((name, "the position is given as %r instead of %d:%d" % (cells[0], a, b)))
        elif (int(m.group(1)), int(m.group(2) or m.group(1))) != (a, b):
            bad.append((name, "the position is given as %s; the field occupies bits %d to %d" % (cells[0], a, b)))
        if norm(cells[2]) != ty:
            bad.append((name, "the type is given as %r; the field is a %s" % (cells[2], ty)))
    return bad


def c22(run):
    ss = (CS.all_structs(run, 300, 3000) + C.endian_structs() + C.notation_structs() + C.reserved_mixed() + C.hygiene_structs() + C.size_structs() + C.slice_structs() + C.enum_gap_structs()
          + C.notation_systematic(run.thorough) + C.endian_systematic(run.thorough) + C.array_systematic(run.thorough))
    seen = set()
    ss = [s for s in ss if not (s.name in seen or seen.add(s.name))]
    groups = [ss[i::16] for i in range(16)]
    got = run.docs([("docs%d" % i, M.render(g, [])) for i, g in enumerate(groups)])
    n = rows = 0
    for i, g in enumerate(groups):
        items = got["docs%d" % i]
        if items is None:
            continue
        by = {}
        for it in items:
            t = "".join(it["docs"])
            if "<table" in t or re.search(r"\d+ bytes", t):
                by.setdefault(it["self"].split("::")[-1], []).append(t)
        for s in g:
            ts = by.get(s.name, [])
            if not ts:
                run.find("missing", "derive(PackedStruct) for %s" % s.name, "neither the type nor one of its implementations carries the documentation of the layout", [s.decl()])
                continue
            n += 1
            rows += sum(len(f.elems()) for f in s.fields)
            for row, msg in [x for t in ts for x in verify_docs(s, t)][:3]:
                run.find("docs", "documentation of %s, row %s (packed_struct_codegen/src/pack_codegen_docs.rs type_docs)" % (s.name, row), msg, [s.decl()])
    run.stats.add("functions analysed", n)
    run.require("documented structures compared", n, 1000)
    run.require("rows compared", rows, 3000)
    run.samples.append({"declaration": ss[5].decl(), "documentation": "".join(next(iter(got.values()))[0]["docs"])[:600] if got.get("docs0") else ""})
    return run.finish("translation_validation", "The doc attributes in the type-checked HIR of derived implementations are read for every declaration of the corpus; stated size, number and order of rows, each row's name, MSB0 bits and type are compared with the declaration.",
                      {"programs": n, "disagreements_checked": rows * 3 + n})


CHECKS = {"C22": c22}
