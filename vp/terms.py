"""Reading the driver's report: bit terms, guards, and the decision whether two terms agree under a guard.

A bit `B` is 0, 1, 2 (unknown), 3 (uninitialised) or node*2+negated; a node is an input bit, a conjunction, an exclusive or, or the
membership of a tuple of bits in a set of intervals.  Terms are compared structurally; where that does not settle it, they are
evaluated on many assignments at once (one bit of a Python integer per assignment), exhaustively when few inputs are involved,
and brought into a canonical form (Exact) when many are.
"""
import random, sys

sys.setrecursionlimit(20000)

TOP, UNINIT = 2, 3


class Terms:
    def __init__(self, report, seed=1):
        self.nodes = {}
        self.leaf = {}
        for k, v in report["nodes"].items():
            k = int(k)
            if v is None:
                continue
            self.nodes[k] = v
            if v[0] == "L":
                self.leaf[(v[1], v[2])] = k
        self.seed = seed
        self._sup = {}

    # ---- structure
    def leaf_b(self, name, bit):
        n = self.leaf.get((name, bit))
        return None if n is None else n << 1

    def support(self, b):
        """the input bits a term depends on (syntactically): a set of (name, bit)"""
        if b < 4:
            return frozenset()
        return self.node_support(b >> 1)

    def node_support(self, n):
        r = self._sup.get(n)
        if r is not None:
            return r
        stack = [n]
        while stack:
            m = stack[-1]
            if m in self._sup:
                stack.pop()
                continue
            v = self.nodes[m]
            if v[0] == "L":
                self._sup[m] = frozenset([(v[1], v[2])])
                stack.pop()
                continue
            kids = [x >> 1 for x in v[1:3] if x >= 4] if v[0] in "AX" else list(v[1])
            todo = [k for k in kids if k not in self._sup]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset()
            for k in kids:
                s |= self._sup[k]
            self._sup[m] = s
            stack.pop()
        return self._sup[n]

    def guard_support(self, g):
        s = set()
        for b in g["l"]:
            s |= self.support(b)
        for t, _ in g["s"]:
            for n in t:
                s |= self.node_support(n)
        for o in g["o"]:
            for h in o:
                s |= self.guard_support(h)
        return s

    def set_nodes(self, b, acc=None, seen=None):
        """the membership tests inside a term whose members are input bits: [(leaves msb first, intervals)]"""
        acc = [] if acc is None else acc
        seen = set() if seen is None else seen
        stack = [b >> 1] if b >= 4 else []
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            v = self.nodes[n]
            if v[0] in "AX":
                stack.extend(x >> 1 for x in v[1:3] if x >= 4)
            elif v[0] == "S":
                stack.extend(v[1])
                if all(self.nodes[m][0] == "L" for m in v[1]):
                    acc.append(([tuple(self.nodes[m][1:3]) for m in v[1]], v[2]))
        return acc

    # ---- evaluation on many assignments
    def lanes(self, assign, n):
        return Lanes(self, assign, n)

    def guard_fixed(self, g):
        """input bits a guard pins: {(name, bit): 0/1}"""
        r = {}
        for b in g["l"]:
            v = self.nodes[b >> 1]
            if v[0] == "L":
                r[(v[1], v[2])] = 0 if b & 1 else 1
        return r

    def guard_sets(self, g):
        out = []
        for t, s in g["s"]:
            if all(self.nodes[m][0] == "L" for m in t):
                out.append(([tuple(self.nodes[m][1:3]) for m in t], s))
        return out


def excluded(terms, g, fixed):
    """does the guard rule out every assignment with the given input bits? (three-valued evaluation: a sufficient condition)"""
    memo = {}

    def node(n0):
        stack = [n0]
        while stack:
            n = stack[-1]
            if n in memo:
                stack.pop()
                continue
            v = terms.nodes[n]
            if v[0] == "L":
                memo[n] = fixed.get((v[1], v[2]))
                stack.pop()
                continue
            kids = [x >> 1 for x in v[1:3] if x >= 4] if v[0] in "AX" else list(v[1])
            todo = [k for k in kids if k not in memo]
            if todo:
                stack.extend(todo)
                continue
            if v[0] in "AX":
                x, y = bit(v[1]), bit(v[2])
                if v[0] == "A":
                    memo[n] = 0 if x == 0 or y == 0 else None if x is None or y is None else 1
                else:
                    memo[n] = None if x is None or y is None else x ^ y
            else:
                memo[n] = inset([memo[k] for k in v[1]], v[2])
            stack.pop()
        return memo[n0]

    def bit(b):
        if b < 4:
            return b if b < 2 else None
        v = memo[b >> 1] if (b >> 1) in memo else node(b >> 1)
        return None if v is None else v ^ (b & 1)

    def inset(bits, ivs):
        lo = hi = 0
        for b in bits:
            lo, hi = lo << 1 | (b or 0), hi << 1 | (1 if b is None else b)
        if all(b is not None for b in bits):
            return int(any(a <= lo <= z for a, z in ivs))
        if any(a <= lo and hi <= z for a, z in ivs):
            return 1
        if not any(a <= hi and lo <= z for a, z in ivs):
            return 0
        return None

    def guard(h):
        r = 1
        for b in h["l"]:
            x = bit(b)
            if x == 0:
                return 0
            if x is None:
                r = None
        for tu, s in h["s"]:
            x = inset([node(n) for n in tu], s)
            if x == 0:
                return 0
            if x is None:
                r = None
        for o in h["o"]:
            xs = [guard(k) for k in o]
            if all(x == 0 for x in xs):
                return 0
            if 1 not in xs:
                r = None
        return r
    return guard(g) == 0


class Lanes:
    def __init__(self, terms, assign, n):
        self.t, self.a, self.n = terms, assign, n
        self.full = (1 << n) - 1
        self.memo = {}

    def get(self, name, bit):
        return self.a.get((name, bit), 0)

    def ev(self, b):
        if b == 0:
            return 0
        if b == 1:
            return self.full
        if b in (TOP, UNINIT):
            raise ValueError("unknown bit")
        v = self.node(b >> 1)
        return v ^ self.full if b & 1 else v

    def node(self, n0):
        """value of a node in every lane"""
        memo, nodes = self.memo, self.t.nodes
        if n0 in memo:
            return memo[n0]
        stack = [n0]
        while stack:
            n = stack[-1]
            if n in memo:
                stack.pop()
                continue
            v = nodes[n]
            if v[0] == "L":
                memo[n] = self.a.get((v[1], v[2]), 0)
                stack.pop()
                continue
            kids = [x >> 1 for x in v[1:3] if x >= 4] if v[0] in "AX" else v[1]
            todo = [k for k in kids if k not in memo]
            if todo:
                stack.extend(todo)
                continue
            if v[0] in "AX":
                x = self.ev(v[1])
                y = self.ev(v[2])
                memo[n] = x & y if v[0] == "A" else x ^ y
            else:
                memo[n] = self.member([memo[k] for k in v[1]], v[2])
            stack.pop()
        return memo[n0]

    def member(self, bits, ivs):
        """lanes whose tuple value (msb first) lies in one of the intervals"""
        r = 0
        for lo, hi in ivs:
            r |= self.ge(bits, lo) & (self.full ^ self.ge(bits, hi + 1))
        return r

    def ge(self, bits, c):
        w = len(bits)
        if c <= 0:
            return self.full
        if c >= 1 << w:
            return 0
        gt, eq = 0, self.full
        for i, b in enumerate(bits):
            if (c >> (w - 1 - i)) & 1:
                eq &= b
            else:
                gt |= eq & b
                eq &= self.full ^ b
        return gt | eq

    def guard(self, g):
        m = self.full
        for b in g["l"]:
            m &= self.ev(b)
        for t, s in g["s"]:
            m &= self.member([self.node(n) for n in t], s)
        for o in g["o"]:
            x = 0
            for h in o:
                x |= self.guard(h)
            m &= x
        return m

    def value(self, leaves, lane):
        """the integer of leaves (msb first) in one lane"""
        v = 0
        for l in leaves:
            v = v << 1 | (self.a.get(l, 0) >> lane & 1)
        return v

    def values(self, leaves):
        return [self.value(leaves, i) for i in range(self.n)]


class TooBig(Exception):
    pass


class F:
    """a boolean function of the input bits, canonical in its manager: two functions are equal exactly when their node is"""
    __slots__ = ("m", "i")

    def __init__(self, m, i):
        self.m, self.i = m, i

    def _of(self, o):
        return o.i if isinstance(o, F) else 1 if o else 0

    def __and__(self, o):
        return F(self.m, self.m.land(self.i, self._of(o)))

    def __or__(self, o):
        return F(self.m, self.m.land(self.i ^ 1, self._of(o) ^ 1) ^ 1)

    def __xor__(self, o):
        return F(self.m, self.m.lxor(self.i, self._of(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return F(self.m, self.i ^ 1)

    def __bool__(self):
        return self.i != 0


class Functions:
    """canonical boolean functions (binary decision diagrams with negated edges); handles: 0 false, 1 true, node*2+negated"""

    def __init__(self, limit):
        self.limit = limit
        self.tab = {}
        # node -> (level, then, otherwise); 'then' is never negated; node 0 is the constant
        self.nodes = [(1 << 60, 1, 1)]
        self.ca, self.cx = {}, {}

    def free(self):
        """the parts refer to each other: let go of the large ones at once"""
        for x in (self.tab, self.nodes, self.ca, self.cx):
            x.clear()

    def mk(self, lv, t, e):
        if t == e:
            return t
        # the constant node is 0, handle 0 is false: true is its negation
        neg = t & 1
        if neg:
            t, e = t ^ 1, e ^ 1
        k = (lv, t, e)
        n = self.tab.get(k)
        if n is None:
            n = len(self.nodes)
            if n > self.limit:
                raise TooBig()
            self.nodes.append(k)
            self.tab[k] = n
        return n << 1 | neg

    def cof(self, h, lv):
        l, t, e = self.nodes[h >> 1]
        if l != lv:
            return h, h
        return (t ^ 1, e ^ 1) if h & 1 else (t, e)

    def land(self, a, b):
        if a == 0 or b == 0 or a == b ^ 1:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        r = self.ca.get((a, b))
        if r is None:
            if len(self.ca) > 8 * self.limit:
                raise TooBig()
            lv = min(self.nodes[a >> 1][0], self.nodes[b >> 1][0])
            at, ae = self.cof(a, lv)
            bt, be = self.cof(b, lv)
            r = self.ca[(a, b)] = self.mk(lv, self.land(at, bt), self.land(ae, be))
        return r

    def lxor(self, a, b):
        neg = (a & 1) ^ (b & 1)
        a, b = a & ~1, b & ~1
        if a == b:
            return neg
        if a == 0 or b == 0:
            return (a | b) ^ neg
        if a > b:
            a, b = b, a
        r = self.cx.get((a, b))
        if r is None:
            if len(self.cx) > 8 * self.limit:
                raise TooBig()
            lv = min(self.nodes[a >> 1][0], self.nodes[b >> 1][0])
            at, ae = self.cof(a, lv)
            bt, be = self.cof(b, lv)
            r = self.cx[(a, b)] = self.mk(lv, self.lxor(at, bt), self.lxor(ae, be))
        return r ^ neg

    def member(self, h):
        """{level: 0/1} of one assignment that makes a function true"""
        out = {}
        while h > 1:
            l, t, e = self.nodes[h >> 1]
            if h & 1:
                t, e = t ^ 1, e ^ 1
            out[l], h = (1, t) if t else (0, e)
        return out if h == 1 else None


class Exact(Lanes):
    """evaluation to boolean functions instead of assignments: what holds of them holds for every input"""

    def __init__(self, terms, order, guard, limit):
        fixed = terms.guard_fixed(guard)
        # fixed: input bits the guard pins
        self.t, self.n, self.fixed = terms, 1, fixed
        self.m = Functions(limit)
        self.full = F(self.m, 1)
        self.memo = {}
        self.order = order
        self.levels, self.names = {}, {}
        self.a = self
        # inputs of which the guard leaves few values: the number of the value takes the place of the bits
        self.few = []
        at = -4096
        for ls, ivs in terms.guard_sets(guard):
            n = sum(hi - lo + 1 for lo, hi in ivs)
            if not 1 < n <= 64 or any(l in fixed or l in self.levels for l in ls) or len(set(ls)) != len(ls):
                continue
            vals = [v for lo, hi in ivs for v in range(lo, hi + 1)]
            k = (n - 1).bit_length()
            idx = [F(self.m, self.m.mk(at + i, 1, 0)) for i in range(k)]
            at += k
            out = [F(self.m, 0)] * len(ls)
            for j in range(1 << k):
                v = vals[j if j < n else 0]
                t = self.full
                for i in range(k):
                    t = t & (idx[i] if j >> i & 1 else ~idx[i])
                out = [o | t if v >> (len(ls) - 1 - b) & 1 else o for b, o in enumerate(out)]
            for l, o in zip(ls, out):
                self.levels[l] = o.i
            self.few.append((at - k, k, ls, vals))

    def get(self, leaf, default=0):
        h = self.levels.get(leaf)
        if h is None and leaf in self.fixed:
            h = self.levels[leaf] = self.fixed[leaf]
        if h is None:
            name, bit = leaf
            key = self.order(name, bit)
            h = self.levels[leaf] = self.m.mk(key, 1, 0)
            self.names[key] = leaf
        return F(self.m, h)

    def member(self, bits, ivs):
        return self.full & Lanes.member(self, bits, ivs)

    def valid_lanes_of(self, cx, cons):
        return self.full & cx.valid_lanes(self, cons)

    def witness(self, f):
        w = self.m.member(f.i if isinstance(f, F) else 1 if f else 0)
        if w is None:
            return None
        # never empty: an empty one would read as none
        r = dict([(("", 0), 0)] + list(self.fixed.items()) + [(self.names[k], v) for k, v in w.items() if k >= 0])
        for at, k, ls, vals in self.few:
            j = sum(w.get(at + i, 0) << i for i in range(k))
            v = vals[j if j < len(vals) else 0]
            r.update({l: v >> (len(ls) - 1 - b) & 1 for b, l in enumerate(ls)})
        return r


def orders(terms):
    """two ways to order the input bits, narrow inputs (tags, lengths of few bits) first: value by value, or bit by bit across the values"""
    width = {}
    for n, b in terms.leaf:
        width[n] = max(width.get(n, 0), b + 1)
    names = {n: i for i, n in enumerate(sorted(width, key=lambda n: (width[n] > 8, n)))}

    def at(n):
        return names.setdefault(n, len(names))
    return [lambda n, b: at(n) << 12 | 4095 - b, lambda n, b: (1 << 40 if width.get(n, 64) > 8 else 0) | (4095 - b) << 24 | at(n)]


def iset_values(ivs, w, rnd, n):
    """n values of a set: its end points first, then random members"""
    out = []
    for lo, hi in ivs[:n]:
        out += [lo, hi]
        if hi - lo > 2:
            out += [lo + 1, hi - 1]
    out = list(dict.fromkeys(out))
    rnd.shuffle(out)
    if len(out) < n:
        if all(lo == hi for lo, hi in ivs):
            out += rnd.choices(out, k=n - len(out))
        else:
            for lo, hi in rnd.choices(ivs, k=n - len(out)):
                out.append(lo + int(rnd.random() * (hi - lo)) if hi - lo < 1 << 50 else rnd.randint(lo, hi))
    return out[:n]


_masks = {}


def lane_mask(n, start, step):
    r = _masks.get((n, start, step))
    if r is None:
        r = _masks[(n, start, step)] = sum(1 << k for k in range(start, n, step))
    return r


def boundary(ivs, w):
    r = []
    for lo, hi in ivs:
        r += [lo - 1, lo, hi, hi + 1]
    return [x for x in r if 0 <= x < 1 << w]


def disjuncts(g, rnd, depth=0):
    """one random choice through the alternatives of a guard: a list of guards to satisfy together"""
    out = [g]
    for o in g["o"]:
        h = o[rnd.randrange(len(o))]
        out += disjuncts(h, rnd, depth + 1) if depth < 6 else [h]
    return out


def sample(terms, guard, leaves, n=192, extra=(), rnd=None):
    """assignments for the given input bits, steered into the guard; returns (Lanes, mask of lanes that satisfy it).
    extra: [(leaves msb first, values to try)]"""
    rnd = rnd or random.Random(terms.seed)
    leaves = set(leaves) | terms.guard_support(guard)
    for ls, _ in extra:
        leaves |= set(ls)
    full = (1 << n) - 1
    a = {}
    for i, l in enumerate(sorted(leaves)):
        x = rnd.getrandbits(n)
        # the first lanes: all zero, all one, then one set bit / one clear bit each
        x &= ~0xff
        x |= 0b10
        if i % 3 == 0:
            x |= 0b100
        if i % 3 == 1:
            x |= 0b1000
        a[l] = x & full

    def put(ls, vals, start, step):
        """vals go to lanes start, start+step, ..."""
        w = len(ls)
        fmt = "0%db" % w
        cols = list(zip(*[format(v, fmt) for v in vals]))
        if step == 1:
            for l, c in zip(ls, cols):
                a[l] = int("".join(c)[::-1], 2)
            return
        for l, c in zip(ls, cols):
            old = list(format(a.get(l, 0), "0%db" % n)[::-1])
            old[start::step] = c
            a[l] = int("".join(old)[::-1], 2)

    for ls, vals in extra:
        vals = list(dict.fromkeys(vals))
        if vals:
            put(ls, rnd.choices(vals, k=n) if len(vals) > 64 else [vals[k % len(vals)] for k in range(n)], 0, 1)
    groups = 16 if guard["o"] else 1
    for gi in range(groups):
        cnt = len(range(gi, n, groups))
        for h in disjuncts(guard, rnd):
            ex = {tuple(ls): vals for ls, vals in extra}
            for ls, ivs in terms.guard_sets(h):
                vals = iset_values(ivs, len(ls), rnd, cnt)
                want = [v for v in ex.get(tuple(ls), ()) if any(lo <= v <= hi for lo, hi in ivs)]
                for i, v in enumerate(want[:len(vals) // 2]):
                    vals[2 * i] = v
                put(ls, vals, gi, groups)
            m = lane_mask(n, gi, groups)
            for l, v in terms.guard_fixed(h).items():
                a[l] = (a.get(l, 0) & ~m) | (m if v else 0)
    L = Lanes(terms, a, n)
    return L, L.guard(guard)


def exhaustive(terms, guard, leaves, limit=14):
    """all assignments of few input bits (those the guard pins do not count); None when there are too many"""
    fixed = terms.guard_fixed(guard)
    ls = sorted(set(leaves) | terms.guard_support(guard))
    free = [l for l in ls if l not in fixed]
    # tuples restricted to few values
    tup = [(t, s) for t, s in terms.guard_sets(guard) if sum(h - l + 1 for l, h in s) <= 4096]
    used = set()
    dims = []
    total = 1
    for t, s in sorted(tup, key=lambda x: sum(h - l + 1 for l, h in x[1])):
        if any(x in used for x in t):
            continue
        vals = [v for lo, hi in s for v in range(lo, hi + 1)]
        dims.append((t, vals))
        used |= set(t)
        total *= len(vals)
    rest = [l for l in free if l not in used]
    if len(rest) > limit or total << len(rest) > 1 << limit:
        return None
    n = total << len(rest)
    a = {}
    full = (1 << n) - 1
    for i, l in enumerate(rest):
        # period 2^(i+1)
        block = ((1 << (1 << i)) - 1) << (1 << i)
        x, w = block, 1 << (i + 1)
        while w < n:
            x |= x << w
            w *= 2
        a[l] = x & full
    stride = 1 << len(rest)
    for t, vals in dims:
        w = len(t)
        for l in t:
            a.setdefault(l, 0)
        cols = [0] * w
        for k in range(0, n, stride):
            v = vals[(k // stride) % len(vals)]
            m = ((1 << stride) - 1) << k
            for i in range(w):
                if (v >> (w - 1 - i)) & 1:
                    cols[i] |= m
        for i, l in enumerate(t):
            a[l] |= cols[i]
        stride *= len(vals)
    for l, v in fixed.items():
        a[l] = full if v else 0
    L = Lanes(terms, a, n)
    return L, L.guard(guard)


def int_bits(j):
    """value as (width, signed, [B lsb first])"""
    if isinstance(j, bool):
        return 1, False, [1 if j else 0]
    if "b" in j and "w" not in j:
        return 1, False, [j["b"]]
    if "n" in j:
        w = j["w"]
        v = j["n"] & ((1 << w) - 1)
        return w, False, [(v >> i) & 1 for i in range(w)]
    return j["w"], j["sg"], j["bits"]


def show_guard(terms, g, depth=0):
    def bit(b):
        if b < 4:
            return "01?!"[b]
        v = terms.nodes[b >> 1]
        s = "%s:%d" % (v[1], v[2]) if v[0] == "L" else "(..)"
        return ("!" if b & 1 else "") + s
    out = [bit(b) for b in g["l"][:12]]
    for t, s in g["s"][:6]:
        names = [terms.nodes[m] for m in t]
        nm = "%s..%s" % (bit(t[0] << 1), bit(t[-1] << 1)) if all(x[0] == "L" for x in names) else "(..)"
        out.append("%s in %s" % (nm, ",".join("%d" % l if l == h else "%d..%d" % (l, h) for l, h in s[:6])))
    for o in g["o"][:3]:
        out.append("one of [" + " | ".join(show_guard(terms, h, depth + 1) for h in o[:3]) + "]")
    return " & ".join(out) or "always"
