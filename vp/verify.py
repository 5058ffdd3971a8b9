"""Comparing what the analysis derived for a witness function with what the declaration promises."""
import random
from . import terms as T
from .model import ev, esup


class Finding:
    def __init__(self, tag, where, msg, trace=()):
        self.tag, self.where, self.msg, self.trace = tag, where, msg, list(trace)

    def line(self):
        return "%s: %s: %s%s" % (self.where, self.tag, self.msg, ("\n      at " + "\n      at ".join(self.trace[:8])) if self.trace else "")


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Parts(list):
    """the partitions of an entry; the context knows which of them is being looked at"""

    def __init__(self, cx, xs):
        super().__init__(xs)
        self.cx = cx

    def __iter__(self):
        old = self.cx.cur
        try:
            for p in super().__iter__():
                self.cx.cur = p.get("g")
                yield p
        finally:
            self.cx.cur = old


class Ctx:
    """one entry of one report"""
    cur = None

    @property
    def e(self):
        return self._e

    @e.setter
    def e(self, e):
        self.source = e
        self._e = dict(e, parts=Parts(self, e["parts"]), terms=Parts(self, e["terms"])) if "parts" in e else e

    def __init__(self, terms, entry, where, stats, findings):
        self.t, self.e, self.where, self.st, self.fs = terms, entry, where, stats, findings
        self.rnd = random.Random(hash(where) & 0 or sum(map(ord, where)))

    def find(self, tag, msg, trace=()):
        # nothing is concluded from a partition that has no members, or none that could be found
        if self.cur is not None and self.satisfiable(self.cur) is None:
            self.st.add("differences in partitions without a known member")
            return
        self.fs.append(Finding(tag, self.where, msg, trace))

    # ---- guards
    def satisfiable(self, g, leaves=(), extra=()):
        """an assignment inside the guard, or None if none was found"""
        for k in range(3):
            L, m = T.sample(self.t, g, leaves, 256, extra, self.rnd)
            if m:
                return L, m
        r = self.exactly(g, lambda X, m: X.witness(m) if m else False)
        if r is False:
            self.st.add("partitions proved empty")
        elif r is None:
            self.st.add("partitions without a known member")
        if r:
            L = T.Lanes(self.t, r, 1)
            return L, 1
        return None

    def free_exact(self):
        c = self.__dict__.get("_exact") or {}
        for v in c.values():
            if isinstance(v, tuple):
                v[0].m.free()
        c.clear()

    def exactly(self, g, f):
        """f(all inputs at once, the guard) in canonical form; None when that grows too large"""
        c = self.__dict__.setdefault("_exact", {})
        if c.get("g") is not g:
            self.free_exact()
            c["g"] = g
        for i, (o, limit) in enumerate([(o, limit) for limit in (20000, 250000) for o in T.orders(self.t)]):
            if c.get(i) == "big":
                continue
            X = c[i][0] if i in c else None
            try:
                if i not in c:
                    X = T.Exact(self.t, o, g, limit)
                    c[i] = (X, T.F(X.m, 1) & X.guard(g))
                return f(*c[i])
            except (T.TooBig, RecursionError):
                c[i] = "big"
                if X is not None:
                    X.m.free()
            except ValueError:
                return None
        return None

    # ---- bits
    def same(self, g, pairs, tag, what):
        """pairs: [(label, actual, expected)] where actual is a bit B or a function of Lanes with its support;
        reports the first definite difference; True when all agree"""
        rest = []
        fixed = self.t.guard_fixed(g)
        for lab, act, exp in pairs:
            if exp is None:
                self.st.add("bits about which nothing is promised")
                continue
            self.st.add("bits compared")
            if len(exp) > 4:
                exp = exp[4](fixed) or exp
            if isinstance(act, int):
                if act in (T.TOP, T.UNINIT):
                    self.st.add("bits left open")
                    continue
                if exp[0] == "c":
                    if act == exp[1]:
                        self.st.add("bits equal by structure")
                        continue
                elif exp[0] == "l":
                    b = self.t.leaf_b(exp[1], exp[2])
                    if b is not None and b == act:
                        self.st.add("bits equal by structure")
                        continue
                    if act < 2 and fixed.get((exp[1], exp[2])) == act:
                        self.st.add("bits equal by structure")
                        continue
            rest.append((lab, act, exp))
        if not rest:
            return True

        def sup(act):
            return self.t.support(act) if isinstance(act, int) else act[1]

        def val(L, act):
            return L.ev(act) if isinstance(act, int) else act[0](L)
        extra, leaves = [], set()
        for lab, act, exp in rest:
            leaves |= set(sup(act)) | set(esup(exp))
            if exp[0] == "f":
                extra += exp[3]
        # evaluate them all at once first
        L, m = T.sample(self.t, g, leaves, 384, self.dedup(extra), self.rnd)
        if not m:
            r = self.satisfiable(g, leaves, self.dedup(extra))
            if r is None:
                return True
            L, m = r
        for lab, act, exp in rest:
            d = (val(L, act) ^ ev(L, exp)) & m
            if d:
                k = d.bit_length() - 1
                ls = sorted(set(sup(act)) | set(esup(exp)))
                self.find(tag, "%s: %s is %d where %d is promised (input %s; %s; derived from %s)" % (
                    what, lab, val(L, act) >> k & 1, ev(L, exp) >> k & 1, self.show(L, k, ls), T.show_guard(self.t, g), names(sup(act))))
                return False
        for lab, act, exp in rest:
            ls = frozenset(sup(act)) | frozenset(esup(exp))
            r = self.cases(g, ls)
            if r is None:
                w = self.exactly(g, lambda X, m: X.witness((X.full & val(X, act) ^ ev(X, exp)) & m) or False)
                if w is None:
                    self.st.add("bits equal on samples only")
                elif w is False:
                    self.st.add("bits equal in canonical form")
                else:
                    L2 = T.Lanes(self.t, w, 1)
                    self.find(tag, "%s: %s is %d where %d is promised (input %s; %s)" % (what, lab, val(L2, act) & 1, ev(L2, exp) & 1, self.show(L2, 0, sorted(ls)), T.show_guard(self.t, g)))
                    return False
                continue
            L, m = r
            d = (val(L, act) ^ ev(L, exp)) & m
            if not d:
                self.st.add("bits equal by case enumeration")
                continue
            # excluded by the rest of the guard perhaps
            k = d.bit_length() - 1
            L2, m2 = T.sample(self.t, g, ls, 256, [([lf], [L.a.get(lf, 0) >> k & 1]) for lf in ls], self.rnd)
            d2 = (val(L2, act) ^ ev(L2, exp)) & m2
            if d2:
                k = d2.bit_length() - 1
                self.find(tag, "%s: %s is wrong for input %s" % (what, lab, self.show(L2, k, sorted(ls))))
                return False
            w = self.exactly(g, lambda X, m: X.witness((X.full & val(X, act) ^ ev(X, exp)) & m) or False)
            if w:
                self.find(tag, "%s: %s is wrong for input %s" % (what, lab, self.show(T.Lanes(self.t, w, 1), 0, sorted(ls))))
                return False
            self.st.add("bits equal on samples only" if w is None else "bits equal in canonical form")
        return True

    def cases(self, g, ls):
        """every assignment of a few input bits that the guard allows (as far as it speaks about few bits)"""
        key = (id(g), ls)
        c = self.__dict__.setdefault("_cases", {})
        if key in c:
            return c[key]
        wide = set(ls)
        for b in g["l"]:
            s = self.t.support(b)
            if s & ls:
                wide |= s
        for tu, _ in g["s"]:
            s = frozenset().union(*[self.t.node_support(n) for n in tu])
            if s & ls:
                wide |= s
        for o in g["o"]:
            s = frozenset().union(*[self.t.guard_support(h) for h in o])
            if s & ls:
                wide |= s
        r = None
        if len(wide) < 200:
            r = T.exhaustive(self.t, restrict(self.t, g, wide), wide)
        if r is None:
            r = T.exhaustive(self.t, restrict(self.t, g, ls), ls)
        c[key] = r
        return r

    @staticmethod
    def dedup(extra):
        seen = {}
        for ls, vals in extra:
            seen.setdefault(tuple(ls), []).extend(vals)
        return [(list(k), v) for k, v in seen.items()]

    def show(self, L, k, leaves):
        vals = {}
        for n, b in leaves:
            vals.setdefault(n, {})[b] = L.a.get((n, b), 0) >> k & 1
        return ", ".join("%s=%#x" % (n, sum(v << b for b, v in d.items())) for n, d in sorted(vals.items())[:8]) or "any"

    # ---- validity
    def valid_lanes(self, L, cons):
        m = L.full
        for name, bits, ivs in cons:
            m &= L.member([ev(L, b) for b in bits[::-1]], ivs)
        return m

    def con_extra(self, cons, rnd):
        out = []
        for name, bits, ivs in cons:
            ls = [(b[1], b[2]) for b in bits[::-1] if b[0] == "l"]
            if len(ls) != len(bits) or len(set(ls)) != len(ls):
                continue
            w = len(ls)
            vals = [v for lo, hi in ivs for v in (lo, hi)][:64]
            out.append((ls, vals + T.boundary(ivs, w)[:64] + [rnd.randrange(1 << w) for _ in range(8)] + [0, (1 << w) - 1]))
        return out

    def entails(self, g, cons, want):
        """guard implies all constraints hold (want=True) / not all hold (want=False); None when only sampled; reports nothing.
        returns (verdict, witness text)"""
        leaves = {x for _, bits, _ in cons for b in bits for x in esup(b)}
        extra = self.con_extra(cons, self.rnd)
        bad, hit = None, False
        for rnd_k in range(3):
            ex = extra if rnd_k == 0 else [(ls, [v for v in vals if in_set(v, iv)] or vals) for (ls, vals), (_, _, iv) in zip(extra, cons)] if len(extra) == len(cons) else extra
            L, m = T.sample(self.t, g, leaves, 512, ex, self.rnd)
            if m:
                hit = True
            v = self.valid_lanes(L, cons)
            d = m & (~v if want else v) & L.full
            if d:
                k = d.bit_length() - 1
                return False, self.show(L, k, sorted(leaves))
        if not hit:
            w = self.exactly(g, lambda X, m: X.witness(m & (~X.valid_lanes_of(self, cons) if want else X.valid_lanes_of(self, cons))) or False)
            if w:
                return False, self.show(T.Lanes(self.t, w, 1), 0, sorted(leaves))
            self.st.add("partitions without a known member" if w is None else "partitions proved empty or as promised")
            return (None if w is None else True), ""
        # proofs: per constraint for want=True; some constraint violated in every alternative for want=False
        if want:
            if all(self.proved(g, c, True) for c in cons):
                return True, ""
        elif self.proved_invalid(g, cons):
            return True, ""
        w = self.exactly(g, lambda X, m: X.witness(m & (~X.valid_lanes_of(self, cons) if want else X.valid_lanes_of(self, cons))) or False)
        if w:
            return False, self.show(T.Lanes(self.t, w, 1), 0, sorted(leaves))
        return (None if w is None else True), ""

    def proved(self, g, con, inside):
        name, bits, ivs = con
        ls = [(b[1], b[2]) for b in bits[::-1] if b[0] == "l"]
        if len(ls) == len(bits):
            for t, s in self.t.guard_sets(g):
                if t == ls and (subset(s, ivs) if inside else disjoint(s, ivs)):
                    return True
        if not bits:
            return inside
        r = self.cases(g, frozenset(ls))
        if r is None:
            return False
        L, m = r
        v = L.member([ev(L, b) for b in bits[::-1]], ivs)
        return not (m & (~v if inside else v) & L.full)

    def proved_invalid(self, g, cons, depth=0):
        if any(self.proved(g, c, False) for c in cons):
            return True
        if depth == 0 and self.points_excluded(g, cons):
            return True
        if depth < 4:
            for o in g["o"]:
                if all(self.proved_invalid({"l": g["l"] + h["l"], "s": g["s"] + h["s"], "o": h["o"]}, cons, depth + 1) for h in o):
                    return True
        return False

    def points_excluded(self, g, cons):
        """few value combinations satisfy the constraints, and the guard rules out each of them"""
        total = 1
        for _, bits, ivs in cons:
            if any(b[0] != "l" for b in bits):
                return False
            total *= sum(hi - lo + 1 for lo, hi in ivs)
            if total > 300:
                return False
        combos = [{}]
        for _, bits, ivs in cons:
            nx = []
            for c in combos:
                for lo, hi in ivs:
                    for v in range(lo, hi + 1):
                        d, ok = dict(c), True
                        for i, b in enumerate(bits):
                            x = (v >> i) & 1
                            if d.setdefault((b[1], b[2]), x) != x:
                                ok = False
                        if ok:
                            nx.append(d)
            combos = nx
        return all(T.excluded(self.t, g, d) for d in combos)

    # ---- common shapes
    def problems(self, panic_tag="panic"):
        """panics and undecided ends of the entry; True when there is at least one partition to look at"""
        for p in self.e["problems"]:
            self.st.add("functions not analysed")
            self.st.setdefault("open", []).append("%s: %s" % (self.where, p[:200]))
        for t in self.e["terms"]:
            if t["kind"] in ("panic", "fault"):
                if self.satisfiable(t["g"]) is not None:
                    self.find(panic_tag, "reaches %s (%s) when %s" % (t["kind"], t["msg"][:160], T.show_guard(self.t, t["g"])), t["trace"])
                    continue
            elif t["kind"] == "unreachable":
                if self.satisfiable(t["g"]) is not None:
                    self.find(panic_tag, "reaches unreachable code when %s" % T.show_guard(self.t, t["g"]), t["trace"])
            else:
                self.st.add("paths left open")
                self.st.setdefault("open", []).append("%s: %s: %s @ %s" % (self.where, t["kind"], t["msg"][:160], (t["trace"] or ["?"])[0]))
        self.st.add("functions analysed")
        self.st.add("partitions", len(self.e["parts"]))
        return bool(self.e["parts"])


def names(s):
    by = {}
    for n, b in s:
        by.setdefault(n, []).append(b)
    return ", ".join("%s bits %s" % (n, ",".join(map(str, sorted(b)))) for n, b in sorted(by.items())[:6]) or "constants"


def restrict(t, g, leaves):
    """the part of a guard that only speaks about some input bits (weaker, so anything it implies the guard implies)"""
    r = {"l": [], "s": [], "o": []}
    for b in g["l"]:
        if t.support(b) <= leaves:
            r["l"].append(b)
    for tu, s in g["s"]:
        x = set()
        for n in tu:
            x |= t.node_support(n)
        if x <= leaves:
            r["s"].append([tu, s])
    for o in g["o"]:
        if all(t.guard_support(h) <= leaves for h in o):
            r["o"].append(o)
    return r


def in_set(v, ivs):
    return any(lo <= v <= hi for lo, hi in ivs)


def subset(s, ivs):
    ivs = norm(ivs)
    return all(any(lo >= a and hi <= b for a, b in ivs) for lo, hi in s)


def disjoint(s, ivs):
    return not any(lo <= b and a <= hi for lo, hi in s for a, b in ivs)


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def result(j):
    """(ok?, payload) of a Result value"""
    if isinstance(j, dict) and j.get("e") == "Result":
        return j["v"] == "Ok", j["f"]["0"]
    return None, j


def err_name(j):
    """the variant of a PackingError value (None when several are possible)"""
    if isinstance(j, dict) and j.get("e") == "PackingError":
        return j["v"]
    return None


def unwrap(j):
    """through single-field structures"""
    while isinstance(j, dict) and "s" in j and len(j["f"]) == 1:
        j = next(iter(j["f"].values()))
    return j


def byte_bits(j):
    """packed bytes -> bits, first bit first"""
    if not (isinstance(j, dict) and "a" in j):
        return None
    out = []
    for b in j["a"]:
        w, _, bits = T.int_bits(b)
        out += bits[::-1]
    return out


def verify_pack(cx, S_name, exp, owner=None, ret=None):
    """entry returns PackingResult<[u8; N]>: always Ok, with exactly the promised bits"""
    if not cx.problems():
        if not cx.e["terms"] and not cx.e["problems"]:
            cx.find("missing", "no outcome")
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("pack-error", "packing fails with %s when %s" % (err_name(v), T.show_guard(cx.t, p["g"])))
            continue
        bits = byte_bits(v)
        if bits is None or len(bits) != len(exp):
            cx.find("size", "packs into %s bits instead of %d" % (bits and len(bits), len(exp)))
            continue
        pairs = []
        for i, (a, e) in enumerate(zip(bits, exp)):
            o = owner[i] if owner else None
            pairs.append(("bit %d (%s)" % (i, o or "no field"), a, e))
        cx.same(p["g"], pairs, "bits", "packing %s" % S_name)


def value_pairs(cx, path, exp, got, pairs):
    """collect (label, actual bit, expected bit) for a value tree"""
    k = exp[0]
    if k == "unit":
        return
    if k == "struct":
        f = got.get("f") if isinstance(got, dict) else None
        if f is None or got.get("s") != exp[1]:
            cx.find("value", "%s: %r instead of a %s" % (path, str(got)[:80], exp[1]))
            return
        for n, e in exp[2].items():
            if n not in f:
                if e[0] == "unit":
                    continue
                cx.find("value", "%s has no field %s" % (path, n))
                continue
            value_pairs(cx, path + "." + n, e, f[n], pairs)
        return
    if k == "array":
        a = got.get("a") if isinstance(got, dict) else None
        if a is None or len(a) != len(exp[1]):
            cx.find("value", "%s: not an array of %d" % (path, len(exp[1])))
            return
        for i, (e, g) in enumerate(zip(exp[1], a)):
            value_pairs(cx, "%s[%d]" % (path, i), e, g, pairs)
        return
    if k in ("tuple", "vec"):
        a = got.get("t" if k == "tuple" else "vec") if isinstance(got, dict) else None
        if a is None or len(a) != len(exp[1]):
            cx.find("value", "%s: %s instead of a %s of %d" % (path, "a %s of %d" % (k, len(a)) if a is not None else str(got)[:60], k, len(exp[1])))
            return
        for i, (e, g) in enumerate(zip(exp[1], a)):
            value_pairs(cx, "%s.%d" % (path, i), e, g, pairs)
        return
    if k == "bool":
        w, _, b = T.int_bits(got)
        pairs.append((path, b[0], exp[1]))
        return
    if k == "int":
        got = unwrap(got)
        w, _, b = T.int_bits(got)
        if w != len(exp[1]):
            cx.find("value", "%s has %d bits instead of %d" % (path, w, len(exp[1])))
            return
        for i in range(w):
            pairs.append(("%s bit %d" % (path, i), b[i], exp[1][i]))
        return
    if k in ("enum", "catchall"):
        E, eb = exp[1], exp[2]
        if k == "catchall":
            if not isinstance(got, dict) or got.get("e") != "EnumCatchAll":
                cx.find("value", "%s: %s is no catch-all value" % (path, str(got)[:80]))
                return
            if got["v"] == "CatchAll":
                w, _, b = T.int_bits(got["f"]["0"])
                for i in range(len(eb)):
                    pairs.append(("%s number bit %d" % (path, i), b[i], eb[i]))
                return ("catchall", path, eb)
            got = got["f"]["0"]
        number_pairs(cx, path, E, got, eb, pairs)
        return
    raise ValueError(k)


def number_pairs(cx, path, E, got, eb, pairs):
    byname = dict(E.variants)
    pm = (1 << E.pw) - 1
    if got.get("e") == E.name or (got.get("s") == E.name):
        v = got.get("v") or E.variants[0][0]
        if v not in byname:
            cx.find("value", "%s: unknown variant %s" % (path, v))
            return
        d = byname[v] & pm
        for i in range(len(eb)):
            pairs.append(("%s (%s) number bit %d" % (path, v, i), (d >> i) & 1, eb[i]))
        return
    if "c" in got:
        tw, _, tb = T.int_bits(got["tag"])
        tm = (1 << tw) - 1
        for v, d in got["map"]:
            if v not in byname or byname[v] & tm != d:
                cx.find("value", "%s: variant %s has discriminant %d" % (path, v, d))
                return
        for i in range(tw):
            if i < len(eb):
                pairs.append(("%s tag bit %d" % (path, i), tb[i], eb[i]))
        return
    cx.find("value", "%s: %s is no %s" % (path, str(got)[:80], E.name))


def catchall_check(cx, g, exp, got, path):
    """a number kept by the catch-all must not be that of a variant"""
    k = exp[0]
    if k == "struct" and isinstance(got, dict) and "f" in got:
        for n, e in exp[2].items():
            if n in got["f"]:
                catchall_check(cx, g, e, got["f"][n], path + "." + n)
    elif k == "array" and isinstance(got, dict) and "a" in got:
        for i, (e, x) in enumerate(zip(exp[1], got["a"])):
            catchall_check(cx, g, e, x, "%s[%d]" % (path, i))
    elif k == "catchall" and isinstance(got, dict) and got.get("v") == "CatchAll":
        E, eb = exp[1], exp[2]
        pm = (1 << E.pw) - 1
        con = (path, eb, [(d & pm, d & pm) for _, d in E.variants])
        leaves = {x for b in eb for x in esup(b)}
        ls = [(b[1], b[2]) for b in eb[::-1] if b[0] == "l"]
        ex = [x for b in eb if b[0] == "f" for x in b[3]]
        if len(ls) == len(eb) and len(set(ls)) == len(ls):
            ex.append((ls, [d & pm for _, d in E.variants]))
        elif len(set(ls)) < len(ls) and not ex:
            w = len(set(ls))
            ex.append((list(dict.fromkeys(ls))[::1], [d & ((1 << w) - 1) for _, d in E.variants]))
        for _ in range(2):
            L, m = T.sample(cx.t, g, leaves, 384, cx.dedup(ex), cx.rnd)
            d = m & L.member([ev(L, b) for b in eb[::-1]], con[2])
            if d:
                kk = d.bit_length() - 1
                cx.find("catchall", "%s: the number of a variant ends up in the catch-all (input %s)" % (path, cx.show(L, kk, sorted(leaves))))
                return


def verify_unpack(cx, name, exp, cons, err="InvalidValue"):
    """entry returns PackingResult<T>: Ok exactly when all constraints hold, with the promised value; otherwise the given error"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok:
            r, wit = cx.entails(p["g"], cons, True)
            if r is False:
                cx.find("accepts-invalid", "unpacking %s succeeds although %s does not hold a valid value (input %s)" % (name, "/".join(sorted({c[0] for c in cons}))[:80], wit))
                continue
            cx.st.add("accepting partitions proved valid" if r else "accepting partitions sampled valid")
            pairs = []
            value_pairs(cx, name, exp, v, pairs)
            cx.same(p["g"], pairs, "value", "unpacking %s" % name)
            catchall_check(cx, p["g"], exp, v, name)
        else:
            if not cons:
                if cx.satisfiable(p["g"]) is not None:
                    cx.find("rejects-valid", "unpacking %s fails with %s when %s" % (name, err_name(v), T.show_guard(cx.t, p["g"])))
                continue
            r, wit = cx.entails(p["g"], cons, False)
            if r is False:
                cx.find("rejects-valid", "unpacking %s fails with %s although every field is valid (input %s)" % (name, err_name(v), wit))
                continue
            cx.st.add("rejecting partitions proved invalid" if r else "rejecting partitions sampled invalid")
            if err and err_name(v) != err:
                if cx.satisfiable(p["g"]) is not None:
                    cx.find("wrong-error", "unpacking %s fails with %s instead of %s" % (name, err_name(v), err))


def verify_rt(cx, name, exp):
    """entry returns PackingResult<T>: always Ok with the value that went in"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("rt-error", "%s: unpacking what was packed fails with %s when %s" % (name, err_name(v), T.show_guard(cx.t, p["g"])))
            continue
        pairs = []
        value_pairs(cx, name, exp, v, pairs)
        cx.same(p["g"], pairs, "value", "round trip of %s" % name)
        catchall_check(cx, p["g"], exp, v, name)


def con_len(name, n):
    return (name, [("l", name, k) for k in range(64)], [(n, n)])


def size_error(cx, p, v, n, name, arg, what):
    """v must be BufferSizeMismatch { expected: n, actual: the slice's length }"""
    if err_name(v) != "BufferSizeMismatch":
        if cx.satisfiable(p["g"]) is not None:
            cx.find("wrong-error", "%s with a slice of another length fails with %s instead of BufferSizeMismatch" % (what, err_name(v)))
        return
    pairs = []
    for i, (a, e) in enumerate(zip(T.int_bits(v["f"]["expected"])[2], [(n >> k) & 1 for k in range(64)])):
        pairs.append(("expected size, bit %d" % i, a, ("c", e)))
    for i, a in enumerate(T.int_bits(v["f"]["actual"])[2]):
        pairs.append(("actual size, bit %d" % i, a, ("l", arg + ".len", i)))
    cx.same(p["g"], pairs, "size-error", what)


def out_bytes(p, name):
    for n, j in p["outs"]:
        if n == name:
            return [T.int_bits(b)[2] for b in j["a"]]
    return None


def unchanged(cx, p, name, first, what):
    bs = out_bytes(p, name)
    if bs is None:
        cx.find("missing", "the output buffer was not tracked")
        return
    pairs = [("%s[%d] bit %d" % (name, i, k), b[k], ("l", "%s[%d]" % (name, i), k)) for i, b in enumerate(bs) if i >= first for k in range(8)]
    cx.same(p["g"], pairs, "touches-output", what)


def verify_spack(cx, name, n, exp, arg="o"):
    """entry(x, o: &mut [u8]) -> PackingResult<()>"""
    if not cx.problems():
        return
    con = con_len(arg + ".len", n)
    what = "packing %s into a slice" % name
    right = 0
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok:
            r, wit = cx.entails(p["g"], [con], True)
            if r is False:
                cx.find("accepts-size", "%s succeeds with a length that is not %d (%s)" % (what, n, wit))
                continue
            right += 1
            bs = out_bytes(p, arg)
            bits = [b[7 - k] for b in bs[:n] for k in range(8)]
            cx.same(p["g"], [("output bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, exp))], "bits", what)
            unchanged(cx, p, arg, n, what)
        else:
            r, wit = cx.entails(p["g"], [con], False)
            if r is False:
                cx.find("rejects-size", "%s of exactly %d bytes fails with %s (%s)" % (what, n, err_name(v), wit))
                continue
            size_error(cx, p, v, n, name, arg, what)
            unchanged(cx, p, arg, 0, what + " of another length")
    if not right and not cx.fs and not cx.e["terms"]:
        cx.find("rejects-size", "%s never succeeds" % what)


def verify_sunpack(cx, name, n, exp, cons, arg="b"):
    """entry(b: &[u8]) -> PackingResult<T>"""
    if not cx.problems():
        return
    con = con_len(arg + ".len", n)
    what = "unpacking %s from a slice" % name
    right = 0
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok:
            right += 1
            r, wit = cx.entails(p["g"], [con], True)
            if r is False:
                cx.find("accepts-size", "%s succeeds with a length that is not %d (%s)" % (what, n, wit))
                continue
            if cons:
                r, wit = cx.entails(p["g"], cons, True)
                if r is False:
                    cx.find("accepts-invalid", "%s succeeds although a field is invalid (%s)" % (what, wit))
                    continue
            pairs = []
            value_pairs(cx, name, exp, v, pairs)
            cx.same(p["g"], pairs, "value", what)
            continue
        r, wit = cx.entails(p["g"], [con] + list(cons), False)
        if r is False:
            cx.find("rejects-valid", "%s fails with %s for valid bytes of the right length (%s)" % (what, err_name(v), wit))
            continue
        # whichever error: it must be the one of the situation
        if err_name(v) == "BufferSizeMismatch":
            r, wit = cx.entails(p["g"], [con], False)
            if r is False:
                cx.find("wrong-error", "%s of the right length reports a size mismatch (%s)" % (what, wit))
                continue
            size_error(cx, p, v, n, name, arg, what)
        else:
            r, wit = cx.entails(p["g"], [con], True)
            if r is False:
                cx.find("wrong-error", "%s with a slice of another length fails with %s (%s)" % (what, err_name(v), wit))
                continue
            if err_name(v) != "InvalidValue" and cx.satisfiable(p["g"]) is not None:
                cx.find("wrong-error", "%s fails with %s instead of InvalidValue" % (what, err_name(v)))
    if not right and not cx.fs and not cx.e["terms"]:
        cx.find("rejects-valid", "%s never succeeds" % what)


def fixed_error(cx, p, v, n, k, what):
    """v must be BufferSizeMismatch { expected: n, actual: k }"""
    if cx.satisfiable(p["g"]) is None:
        return
    if err_name(v) != "BufferSizeMismatch":
        cx.find("wrong-error", "%s fails with %s instead of BufferSizeMismatch" % (what, err_name(v)))
    elif (const_of(v["f"]["expected"]), const_of(v["f"]["actual"])) != (n, k):
        cx.find("size-error", "%s reports sizes %s" % (what, {a: const_of(b) for a, b in v["f"].items()}))


def verify_fpack(cx, name, n, k, exp, arg="o"):
    """entry(x, o: &mut [u8; k]) -> PackingResult<()> of a type of n bytes"""
    if not cx.problems():
        return
    what = "packing %s (%d bytes) into %d bytes" % (name, n, k)
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok and k != n and cx.satisfiable(p["g"]) is not None:
            cx.find("accepts-size", what + " succeeds")
        elif ok:
            bits = [b[7 - i] for b in out_bytes(p, arg) for i in range(8)]
            cx.same(p["g"], [("output bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, exp))], "bits", what)
        elif k == n:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("rejects-size", "%s fails with %s" % (what, err_name(v)))
        else:
            fixed_error(cx, p, v, n, k, what)
            unchanged(cx, p, arg, 0, what)


def verify_funpack(cx, name, n, k):
    """entry(b: &[u8; k]) -> PackingResult<T> of a type of n bytes, k another number"""
    if not cx.problems():
        return
    what = "unpacking %s (%d bytes) from %d bytes" % (name, n, k)
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if not ok:
            fixed_error(cx, p, v, n, k, what)
        elif cx.satisfiable(p["g"]) is not None:
            cx.find("accepts-size", what + " succeeds")


def verify_vpack(cx, name, exp):
    """entry(x) -> PackingResult<Vec<u8>>"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("pack-error", "packing %s into a vector fails with %s when %s" % (name, err_name(v), T.show_guard(cx.t, p["g"])))
            continue
        if not isinstance(v, dict) or "vec" not in v:
            cx.find("value", "%s: no vector" % name)
            continue
        bits = [b for x in v["vec"] for b in T.int_bits(x)[2][::-1]]
        if len(bits) != len(exp):
            if cx.satisfiable(p["g"]) is not None:
                cx.find("size", "%s is packed into %d bytes instead of %d" % (name, len(bits) // 8, len(exp) // 8))
            continue
        cx.same(p["g"], [("bit %d" % i, a, e) for i, (a, e) in enumerate(zip(bits, exp))], "bits", "packing %s into a vector" % name)


def const_of(j):
    try:
        w, _, b = T.int_bits(j)
    except (KeyError, TypeError):
        return None
    return sum(x << i for i, x in enumerate(b)) if all(x in (0, 1) for x in b) else None


def verify_consts(cx, name, want, labels):
    """entry() -> tuple of integers, the same on every path"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        got = [const_of(x) for x in p["ret"]["t"]]
        for l, g, w in zip(labels, got, want):
            cx.st.add("sizes compared")
            if g != w and cx.satisfiable(p["g"]) is not None:
                cx.find("size", "%s of %s is %s, promised is %d" % (l, name, g, w))


def verify_sizes(cx, name, bits, nbytes):
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        t = p["ret"]["t"]
        vals = [const_of(t[0]), const_of(t[1])]
        for x in t[2:]:
            ok, v = result(x)
            vals.append(const_of(v) if ok else "an error (%s)" % err_name(v))
        for l, g, w in zip(("the number of bits", "the length of the byte array", "the size with an instance", "the size without an instance"), vals, (bits, nbytes, nbytes, nbytes)):
            cx.st.add("sizes compared")
            if g != w and cx.satisfiable(p["g"]) is not None:
                cx.find("size", "%s of %s is %s, promised is %d" % (l, name, g, w))


def verify_dunpack(cx, name, stat, dyn, maxlen, shape, arg="b", err_below=None):
    """entry(b: &[u8]) -> Option<PackingResult<T>>, None for lengths beyond maxlen.
    T takes stat + m * dyn bytes for every m; shape(m) -> (value, constraints) of that length; other lengths are errors"""
    if not cx.problems():
        return
    what = "unpacking %s" % name
    lens = [stat + m * dyn for m in range((maxlen - stat) // dyn + 1)] if dyn else [stat]
    shapes = {n: shape(m) for m, n in enumerate(lens)}
    seen = set()
    for p in cx.e["parts"]:
        o = p["ret"]
        if o["v"] == "None":
            continue
        ok, v = result(o["f"]["0"])
        if ok:
            hit = None
            for n in lens:
                r, wit = cx.entails(p["g"], [con_len(arg + ".len", n)], True)
                if r is not False:
                    hit = n
                    break
            if hit is None:
                cx.find("accepts-size", "%s succeeds with a length it cannot have (%s)" % (what, cx.entails(p["g"], [con_len(arg + ".len", lens[0])], True)[1]))
                continue
            seen.add(hit)
            exp, cons = shapes[hit]
            if cons:
                r, wit = cx.entails(p["g"], cons, True)
                if r is False:
                    cx.find("accepts-invalid", "%s succeeds although a member is invalid (%s)" % (what, wit))
                    continue
            pairs = []
            value_pairs(cx, "%s of %d bytes" % (name, hit), exp, v, pairs)
            cx.same(p["g"], pairs, "value", what)
            continue
        en = err_name(v)
        bad = False
        for n in lens:
            r, wit = cx.entails(p["g"], [con_len(arg + ".len", n)] + list(shapes[n][1]), False)
            if r is False:
                cx.find("rejects-valid", "%s fails with %s for %d valid bytes (%s)" % (what, en, n, wit))
                bad = True
                break
        if bad:
            continue
        right = (arg + ".len", [("l", arg + ".len", k) for k in range(64)], [(n, n) for n in lens])
        if en in ("BufferModMismatch", "BufferSizeMismatch"):
            r, wit = cx.entails(p["g"], [right], False)
            if r is False:
                cx.find("wrong-error", "%s with a fitting length fails with %s (%s)" % (what, en, wit))
                continue
            fld = ("modulo_required", "actual_size") if en == "BufferModMismatch" else ("expected", "actual")
            below = ("below", [("l", arg + ".len", k) for k in range(64)], [(0, stat - 1)]) if stat else None
            isbelow = below and cx.entails(p["g"], [below], True)[0] is not False
            pairs = []
            if en == "BufferModMismatch":
                if isbelow and dyn:
                    cx.find("wrong-error", "%s of fewer bytes than the fixed members need fails with %s" % (what, en))
                pairs += [("item size, bit %d" % i, a, ("c", (dyn >> i) & 1)) for i, a in enumerate(T.int_bits(v["f"][fld[0]])[2])]
                if not stat:
                    pairs += [("actual size, bit %d" % i, a, ("l", arg + ".len", i)) for i, a in enumerate(T.int_bits(v["f"][fld[1]])[2])]
            else:
                if not isbelow and dyn and cx.satisfiable(p["g"]) is not None:
                    cx.find("wrong-error", "%s with a remainder fails with %s instead of BufferModMismatch" % (what, en))
                pairs += [("expected size, bit %d" % i, a, ("c", (stat >> i) & 1)) for i, a in enumerate(T.int_bits(v["f"][fld[0]])[2])]
                pairs += [("actual size, bit %d" % i, a, ("l", arg + ".len", i)) for i, a in enumerate(T.int_bits(v["f"][fld[1]])[2])]
            cx.same(p["g"], pairs, "size-error", what)
        else:
            r, wit = cx.entails(p["g"], [right], True)
            if r is False:
                cx.find("wrong-error", "%s with an unfitting length fails with %s (%s)" % (what, en, wit))
                continue
            if en != "InvalidValue" and cx.satisfiable(p["g"]) is not None:
                cx.find("wrong-error", "%s fails with %s instead of InvalidValue" % (what, en))
    if not cx.fs and not cx.e["terms"]:
        for n in lens:
            if n not in seen:
                cx.find("missing", "%s: no outcome for %d bytes" % (what, n))


def verify_err(cx, what, names):
    """every outcome is one of the given errors"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        o = p["ret"]
        if isinstance(o, dict) and o.get("e") == "Option":
            if o["v"] == "None":
                continue
            o = o["f"]["0"]
        ok, v = result(o)
        if (ok or err_name(v) not in names) and cx.satisfiable(p["g"]) is not None:
            cx.find("wrong-error", "%s %s instead of failing with %s (%s)" % (what, "succeeds" if ok else "fails with %s" % err_name(v), "/".join(names), T.show_guard(cx.t, p["g"])))


def verify_size_results(cx, name, want):
    """entry() -> tuple of PackingResult<usize>; want: numbers or error names"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        for i, (x, w) in enumerate(zip(p["ret"]["t"], want)):
            ok, v = result(x)
            got = const_of(v) if ok else err_name(v)
            cx.st.add("sizes compared")
            if got != w and cx.satisfiable(p["g"]) is not None:
                cx.find("size", "size query %s an instance of %s gives %s instead of %s" % ("with" if i == 0 else "without", name, got, w))


def option(j):
    """(some?, payload) of an Option value"""
    if isinstance(j, dict) and j.get("e") == "Option":
        return j["v"] == "Some", j["f"].get("0")
    return None, j


def verify_option(cx, what, exp, cons):
    """entry returns Option<T>: Some exactly when all constraints hold (always, without constraints), with the promised value"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        some, v = option(p["ret"])
        if some is None:
            cx.find("value", "%s gives %s" % (what, str(p["ret"])[:80]))
            continue
        r, wit = cx.entails(p["g"], cons, some) if cons else ((True if some else False if cx.satisfiable(p["g"]) is not None else None), "")
        if r is None and not cons:
            continue
        if r is False:
            cx.find("accepts" if some else "rejects", "%s gives %s%s" % (what, "a result for a value that has none" if some else "nothing for a value that has one", " (input %s)" % wit if wit else ""))
            continue
        cx.st.add(("accepting" if some else "rejecting") + (" partitions proved" if r else " partitions sampled"))
        if some and exp is not None:
            pairs = []
            value_pairs(cx, what, exp, v, pairs)
            cx.same(p["g"], pairs, "value", what)
            catchall_check(cx, p["g"], exp, v, what)


def text(j):
    """the text of a string value (None when it is not constant)"""
    if isinstance(j, str):
        return j
    if isinstance(j, dict):
        if j.get("e") == "Cow":
            return text(j["f"]["0"])
        if "string" in j:
            bs = [const_of(b) for b in j["string"]]
            return None if None in bs else bytes(bs).decode("utf8", "replace")
    return None


def listing(j):
    """the items of a slice, vector or Cow of either"""
    if isinstance(j, dict):
        if j.get("e") == "Cow":
            return listing(j["f"]["0"])
        for k in ("a", "vec"):
            if k in j:
                return j[k]
    return None
