"""Running one check: jobs for the driver, findings, known findings, evidence, exit code."""
import json, os, re, resource, shutil, signal, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, model, terms, verify

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Unfinished(dict):
    """the report of a driver run that broke down: whatever is asked of it is undecided"""
    def __init__(self, why, text):
        dict.__init__(self)
        self.why = why
        self.names = re.findall(r"pub fn (w_\w+)", text)

    def get(self, k, d=None):
        return {"name": k, "problems": [self.why], "parts": [], "tokens": [], "stats": {"ms": 0, "local_fns": 0, "blocks": 0}, "unfinished": True,
                "terms": [{"g": {"l": [], "s": [], "o": []}, "kind": "stuck", "msg": self.why, "trace": [], "approx": True}]}

    __getitem__ = get

    def items(self):
        return [(n, self.get(n)) for n in self.names]

    def __contains__(self, k):
        return True


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        build.DEADLINE = None if os.environ.get("VERIF_TIER") == "thorough" else self.t0 + 620
        self.findings = []
        self.stats = verify.Stats()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.dir = build.scratch()
        self.src = {}
        self.files = set()
        self.entered = set()
        self.anchors = {}
        self.unfinished = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- findings
    def find(self, tag, where, msg, trace=(), key=None):
        f = verify.Finding(tag, where, msg, trace)
        f.key = key
        self.findings.append(f)

    def require(self, what, count, floor):
        """fail closed when a rule looked at fewer instances than were counted by hand"""
        self.anchors[what] = count
        if count < floor and self.unfinished:
            self.stats.setdefault("open", []).append("%s: the analysis of %s broke down" % (what, ", ".join(self.unfinished)))
        elif count < floor:
            self.find("missing", what, "only %d of at least %d instances were found to analyse" % (count, floor))

    def sub(self):
        """a run whose findings are judged by the caller"""
        r = Run.__new__(Run)
        r.__dict__.update(self.__dict__)
        r.findings, r.stats, r.samples = [], verify.Stats(), []
        return r

    def absorb(self, sub):
        for k, v in sub.stats.items():
            if k == "open":
                self.stats.setdefault("open", []).extend(v)
            else:
                self.stats.add(k, v)

    # ---- analysis of witness crates
    def crates(self, texts, cfg="default", edition="2018", owner=None):
        """texts: [(name, rust text)] -> {name: (Terms, {entry name: entry}) or None if it does not compile}"""
        jobs = []
        for name, text in texts:
            d = os.path.join(self.dir, cfg + "_" + name)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, name + ".rs")
            with open(p, "w") as f:
                f.write(text)
            self.src[name] = text
            jobs.append((name, p, {"cfg": cfg, "edition": edition}))
        out, errs, text_of = {}, {}, dict(texts)
        for name, rep, err in build.analyse_many(jobs):
            if rep is None:
                out[name] = None
                errs[name] = err
                continue
            if "unfinished" in rep:
                out[name] = (None, Unfinished(rep["unfinished"], text_of[name]))
                self.unfinished.append(name)
                continue
            self.files |= {f.split(":")[0] for f in rep.get("fns", [])}
            self.entered |= set(rep.get("entered", []))
            out[name] = (terms.Terms(rep, self.seed), {e["name"]: e for e in rep["entries"]})
            self.stats.add("witness crates")
            for e in rep["entries"]:
                self.stats.add("library and derived functions entered (sum over witnesses)", e["stats"]["local_fns"])
                self.stats.add("basic blocks interpreted (sum over witnesses)", e["stats"]["blocks"])
                self.stats["slowest entry (ms)"] = max(self.stats.get("slowest entry (ms)", 0), e["stats"]["ms"])
        return out, errs

    def facts(self, name, text, cfg="default", edition="2018"):
        """signatures, calls and effects of every function of the library (and of the witness crate)"""
        p = os.path.join(self.dir, name + ".rs")
        with open(p, "w") as f:
            f.write(text)
        rep, err = build.analyse(p, cfg=cfg, edition=edition, mode="facts")
        if rep is not None and "unfinished" in rep:
            self.unfinished.append(name)
            self.stats.setdefault("open", []).append("witness crate %s: %s" % (name, rep["unfinished"]))
            return None
        if rep is None:
            self.find("build", "witness crate %s" % name, "does not compile: %s" % first_error(err))
        return rep

    def docs(self, texts, cfg="default", edition="2018"):
        """texts: [(name, rust text)] -> {name: [{self, trait, docs}] or None}"""
        jobs = []
        for name, text in texts:
            p = os.path.join(self.dir, name + ".rs")
            with open(p, "w") as f:
                f.write(text)
            jobs.append((name, p, {"cfg": cfg, "edition": edition, "mode": "docs"}))
        out = {}
        for name, rep, err in build.analyse_many(jobs):
            if rep is not None and "unfinished" in rep:
                self.unfinished.append(name)
                self.stats.setdefault("open", []).append("witness crate %s: %s" % (name, rep["unfinished"]))
                rep = None
            elif rep is None:
                self.find("build", "witness crate %s" % name, "does not compile: %s" % first_error(err))
            out[name] = rep and rep["items"]
        return out

    def structs(self, ss, fns, cfg="default", weight=None, chunks=16):
        """analyse the given functions of every structure: {(structure name, fn): Ctx}; declarations the derive no longer accepts are findings"""
        wf = weight or (lambda s: 1 + sum(f.width for f in s.fields))
        groups = [[] for _ in range(min(chunks, len(ss)))]
        load = [0] * len(groups)
        for s in sorted(ss, key=wf, reverse=True):
            i = load.index(min(load))
            groups[i].append(s)
            load[i] += wf(s)
        res = self._structs(groups, fns, cfg, "g")
        out = {}
        for s in ss:
            for f in fns:
                c = res.get((s.name, f))
                if c is not None:
                    out[(s.name, f)] = c
        return out

    def _structs(self, groups, fns, cfg, prefix):
        fs = build.FEATURE_SETS[cfg]
        # derived code names the allocator crate when the library is built for it
        more = "\nextern crate alloc;\n" if not fs["default"] and "alloc" in fs["features"] else ""
        texts = [("%s%d" % (prefix, i), model.render(g, fns) + more) for i, g in enumerate(groups)]
        got, errs = self.crates(texts, cfg)
        res, retry = {}, []
        for i, g in enumerate(groups):
            r = got["%s%d" % (prefix, i)]
            if r is None:
                if len(g) == 1:
                    self.find("rejected", "declaration %s" % g[0].name, "a well-formed declaration does not compile: %s" % first_error(errs["%s%d" % (prefix, i)]), [g[0].decl()])
                else:
                    retry += [[s] for s in g]
                continue
            t, es = r
            for s in g:
                for f in fns:
                    e = es.get("w_%s_%s" % (s.name, f))
                    if e is None:
                        self.find("missing", "%s::%s" % (s.name, f), "the witness function was not analysed")
                        continue
                    res[(s.name, f)] = self.ctx(t, e, "derive of %s (%s)" % (s.name, f))
        if retry:
            res.update(self._structs(retry, fns, cfg, prefix + "r"))
        return res

    def ctx(self, t, e, where):
        return verify.Ctx(t, e, where, self.stats, self.findings)

    def verify(self, tasks):
        """tasks: [(Ctx, function, args)], spread over processes; findings and statistics are collected"""
        if not tasks:
            return
        global _TASKS
        n = min(8, len(tasks))
        _TASKS = sorted(tasks, key=lambda t: -sum(len(t[0].e["parts"]) for _ in (0,)))
        import multiprocessing as mp
        _LIMITS.setdefault("found", mp.Value("b", 0))
        _LIMITS.update(early=None if self.thorough else self.t0 + 120)
        _LIMITS.update(until=self.t0 + (3000 if self.thorough else 680), each=200 if self.thorough else 25)
        with mp.get_context("fork").Pool(n, _limit_memory, maxtasksperchild=1) as pool:
            step = max(1, len(_TASKS) // (n * 12))
            chunks = [range(i, min(i + step, len(_TASKS))) for i in range(0, len(_TASKS), step)]
            it = pool.imap_unordered(_tasks, chunks)
            for _ in chunks:
                try:
                    got = it.next(timeout=max(1, _LIMITS["until"] + 60 - time.time()))
                except mp.TimeoutError:
                    # a comparison that does not come back, or a process that is gone
                    self.stats.setdefault("open", []).append("comparisons that did not come to an end")
                    pool.terminate()
                    break
                for fs, st in got:
                    self.findings += fs
                    for k, v in st.items():
                        if k == "open":
                            self.stats.setdefault("open", []).extend(v)
                        else:
                            self.stats.add(k, v)

    def compile_all(self, items, cfg="default", edition="2018"):
        """items: [(name, text)] -> {name: (ok, diagnostics)} with the plain compiler front end"""
        build.lib(cfg)

        def one(it):
            name, text = it
            d = os.path.join(self.dir, cfg + "_c_" + name)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, name + ".rs")
            with open(p, "w") as f:
                f.write(text)
            ok, diags, r = build.compile_witness(p, d, cfg, edition)
            return name, (ok, diags)
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, items))

    # ---- the end
    def finish(self, level, explanation, extra=None):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.pid]
        seen, new = set(), []
        for f in self.findings:
            k = next((k for k in known if getattr(f, "key", None) and k["key"] == f.key), None)
            if k:
                if k["key"] not in seen:
                    seen.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                continue
            new.append(f)
        opens = self.stats.pop("open", [])
        cov = dict(self.stats)
        cov.update(extra or {})
        cov["explanation"] = explanation
        cov["anchors"] = self.anchors
        cov["repository files whose functions were analysed"] = sorted(self.files)
        cov["undecided"] = opens[:40]
        cov["undecided_count"] = len(opens)
        cov["samples"] = self.samples[:6] or [explanation[:200]]
        cov.setdefault("evaluations", int(cov.get("functions analysed", 0)))
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.dir, ignore_errors=True)
        print("%s: %d functions analysed, %d bits compared, %d undecided, %.1fs" % (
            self.pid, cov.get("functions analysed", 0), cov.get("bits compared", 0), len(opens), time.time() - self.t0))
        for o in opens[:5]:
            print("  undecided:", o)
        if not new:
            return 0
        rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\n\n" % self.pid)
            for x in new[:200]:
                f.write(x.line() + "\n\n")
        for x in new[:12]:
            print("  " + x.line())
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


_TASKS = []
_LIMITS = {}


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


def _limit_memory():
    with open("/proc/self/statm") as f:
        have = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (have + 3 * 1024 ** 3,) * 2)
    signal.signal(signal.SIGALRM, _late)


def _one_task(i):
    cx, fn, args = _TASKS[i]
    cx.fs, cx.st = [], verify.Stats()
    left = min(_LIMITS["each"], _LIMITS["until"] - time.time())
    if _LIMITS["early"] and _LIMITS["found"].value and time.time() > _LIMITS["early"]:
        # what was found is reported; the rest would take long
        cx.st.setdefault("open", []).append("%s: left out after a violation was found" % cx.where)
        return cx.fs, cx.st
    if left <= 0.1:
        cx.st.setdefault("open", []).append("%s: not compared, out of time" % cx.where)
        return cx.fs, cx.st
    # a partition behind a condition the analysis could not decide may have no members: nothing is concluded from it
    e = cx.e
    if any(p.get("approx") for p in e["parts"]) or any(t.get("approx") and t["kind"] != "stuck" for t in e["terms"]):
        cx.e = dict(e, parts=[p for p in e["parts"] if not p.get("approx")],
                    terms=[dict(t, kind="stuck", msg="behind an undecided condition: " + t["msg"]) if t.get("approx") else t for t in e["terms"]]
                    + [{"g": p["g"], "kind": "stuck", "msg": "an outcome behind an undecided condition", "trace": [], "approx": True} for p in e["parts"] if p.get("approx")])
    try:
        signal.setitimer(signal.ITIMER_REAL, left)
        fn(cx, *args)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Late:
        cx.st.setdefault("open", []).append("%s: the comparison takes too long" % cx.where)
    except MemoryError:
        cx.st.setdefault("open", []).append("%s: the comparison takes too much memory" % cx.where)
    except Exception:
        signal.setitimer(signal.ITIMER_REAL, 0)
        # a shape the comparison does not know: undecided, not a verdict
        cx.st.add("comparisons not understood")
        cx.st.setdefault("open", []).append("%s: %s" % (cx.where, traceback.format_exc().strip().splitlines()[-1]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if any(not getattr(f, "key", None) for f in cx.fs):
            _LIMITS["found"].value = 1
        cx.free_exact()
        cx.__dict__.pop("_cases", None)
    return cx.fs, cx.st


def _tasks(ix):
    return [_one_task(i) for i in ix]


COMMON_ASSUMPTIONS = [
    "rustc's MIR for x86_64-unknown-linux-gnu (nightly, before optimisation) is a faithful translation of the source",
    "the driver's transfer functions for MIR statements and intrinsics are correct (it is part of the trusted base)",
]


def first_error(err):
    """the first error of a compiler run"""
    for line in (err or "").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            if "panicked" in line or "error" in line:
                return line[:300]
            continue
        if m.get("level") == "error":
            sp = m.get("spans") or []
            loc = " (%s:%d)" % (os.path.basename(sp[0]["file_name"]), sp[0]["line_start"]) if sp else ""
            return m["message"][:400] + loc
    return (err or "")[-300:]


def main(checks):
    pid = sys.argv[1]
    run = None
    try:
        run = Run(pid)
        rc = checks[pid](run)
    except build.BuildError as e:
        run.find("build", "the repository", "does not compile: %s" % str(e)[:1500])
        rc = run.finish("other", "the repository did not compile, nothing else was analysed")
    except Exception:
        traceback.print_exc()
        # an error of the machinery must not look like a verdict
        if run is not None:
            shutil.rmtree(run.dir, ignore_errors=True)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
