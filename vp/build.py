"""Builds: the analysis driver, the repository's crates with MIR for every function, and witness crates."""
import hashlib, json, os, resource, shutil, subprocess, sys, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
TARGET = "x86_64-unknown-linux-gnu"
MIRI_SYSROOT = "/root/.cache/miri"
MIR_FLAGS = ["--sysroot", MIRI_SYSROOT, "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=on",
             "-Cdebug-assertions=on", "-Zub-checks=off", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-Awarnings"]

FEATURE_SETS = {
    "default": dict(default=True, features=[]),
    "serde": dict(default=True, features=["use_serde"]),
    "release": dict(default=True, features=[], release=True),  # derives built without overflow checks
    "none": dict(default=False, features=[]),
    "alloc": dict(default=False, features=["alloc"]),
    "b64": dict(default=True, features=["byte_types_64"]),
    "b256": dict(default=True, features=["byte_types_256"]),
    "none_serde": dict(default=False, features=["use_serde"]),
    "none_b64": dict(default=False, features=["byte_types_64"]),
    "none_b256": dict(default=False, features=["byte_types_256"]),
    "alloc_b256": dict(default=False, features=["alloc", "byte_types_256"]),
    "alloc_serde": dict(default=False, features=["alloc", "use_serde"]),
    "std_alloc": dict(default=True, features=["alloc"]),
    "b64_256": dict(default=True, features=["byte_types_64", "byte_types_256"]),
}


class BuildError(Exception):
    """the repository's code does not compile (carries the compiler's output)"""


def sh(cmd, env=None, cwd=None, timeout=800, memory=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                          preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (memory, memory))) if memory else None)


def repo_files():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".md")):
                out.append(os.path.join(d, f))
    return out


_hash = None
DEADLINE = None  # when an analysis that is still running is given up


def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256(repr(MIR_FLAGS).encode())
        for f in repo_files():
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()[:16]
    return _hash


def toolchain_lib():
    p = os.path.join(BUILD, "sysroot.txt")
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return os.path.join(r.stdout.strip(), "lib")


_lib = None


def driver_env():
    global _lib
    if _lib is None:
        _lib = toolchain_lib()
    return {"LD_LIBRARY_PATH": _lib + ":" + os.environ.get("LD_LIBRARY_PATH", "")}


def driver():
    """path of the compiled driver (rebuilt when its source changes)"""
    src = os.path.join(VERIF, "driver", "src")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        with open(os.path.join(src, f), "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    out = os.path.join(BUILD, "driver-" + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", os.path.join(src, "main.rs"), "-o", tmp])
    if r.returncode != 0:
        raise RuntimeError("driver does not build: " + r.stderr[-4000:])
    os.rename(tmp, out)
    for f in os.listdir(BUILD):
        if f.startswith("driver-") and os.path.join(BUILD, f) != out and ".tmp" not in f:
            os.unlink(os.path.join(BUILD, f))
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _host_crate(d, cfg):
    fs = FEATURE_SETS[cfg]
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    serde = 'serde = { version = "1.0", default-features = false }\n' if "use_serde" in fs["features"] else ""
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "vphost"
version = "0.0.0"
edition = "2018"
[dependencies]
packed_struct = {{ path = "{repo}/packed_struct", default-features = {df}, features = {fe} }}
packed_struct_codegen = {{ path = "{repo}/packed_struct_codegen" }}
{serde}
[workspace]
""".format(repo=REPO, df="true" if fs["default"] else "false", fe=json.dumps(fs["features"]), serde=serde))
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write("#![no_std]\n")


class Lib:
    """the compiled crates of the repository in one configuration"""

    def __init__(self, cfg, externs, deps, log):
        self.cfg, self.externs, self.deps, self.log = cfg, externs, deps, log

    def args(self, edition="2018"):
        a = ["--edition", edition, "--target", TARGET] + MIR_FLAGS
        for d in self.deps:
            a += ["-L", "dependency=" + d]
        for n, p in self.externs.items():
            a += ["--extern", n + "=" + p]
        return a


_libs = {}


def lib(cfg="default"):
    if cfg in _libs:
        return _libs[cfg]
    with Lock("lib-" + cfg):
        base = os.path.join(BUILD, "lib-" + cfg)
        want = os.path.join(BUILD, "lib-" + cfg + "-" + repo_hash())
        done = os.path.join(want, "done.json")
        if not os.path.exists(done):
            if os.path.exists(want):
                shutil.rmtree(want)
            # third-party crates come from the newest build; everything of the repository is built anew
            olds = [x for x in os.listdir(BUILD) if x.startswith("lib-" + cfg + "-") and os.path.isdir(os.path.join(BUILD, x))]
            if olds:
                olds.sort(key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
                src = os.path.join(BUILD, olds[-1])
                shutil.copytree(src, want, symlinks=True)
                if os.path.exists(done):
                    os.unlink(done)
                for d, dirs, files in os.walk(os.path.join(want, "target")):
                    for x in list(dirs):
                        if x.startswith(("packed_struct", "vphost")):
                            shutil.rmtree(os.path.join(d, x))
                            dirs.remove(x)
            os.makedirs(want, exist_ok=True)
            host = os.path.join(want, "host")
            _host_crate(host, cfg)
            env = {"CARGO_TARGET_DIR": os.path.join(want, "target"), "CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUSTFLAGS": " ".join(MIR_FLAGS),
                   "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"}
            r = sh(["cargo", "+nightly", "check", "--offline", "--target", TARGET, "--message-format=json", "--manifest-path", os.path.join(host, "Cargo.toml")] + (["--release"] if FEATURE_SETS[cfg].get("release") else []), env=env)
            ext, errs, deps = {}, [], set()
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-artifact":
                    n = m["target"]["name"]
                    deps |= {os.path.dirname(f) for f in m["filenames"] if f.endswith((".rmeta", ".rlib", ".so"))}
                    if n in ("packed_struct", "packed_struct_codegen", "serde"):
                        for f in m["filenames"]:
                            if f.endswith((".rmeta", ".so")):
                                ext[n] = f
                elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    errs.append(m["message"].get("rendered") or m["message"]["message"])
            ok = r.returncode == 0 and "packed_struct" in ext and "packed_struct_codegen" in ext
            deps = sorted(deps)
            with open(done, "w") as f:
                json.dump({"ok": ok, "externs": ext, "deps": deps, "log": "\n".join(errs) or (r.stderr[-3000:] if not ok else "")}, f)
            keep = [x for x in olds if x != os.path.basename(want)]
            for x in keep[:-2]:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        with open(done) as f:
            j = json.load(f)
    if not j["ok"]:
        raise BuildError(j["log"])
    _libs[cfg] = Lib(cfg, j["externs"], j["deps"], j["log"])
    return _libs[cfg]


def scratch():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix="w-", dir=BUILD)


def compile_witness(src_path, out_dir, cfg="default", edition="2018", extra=(), json_errors=True):
    """type-check one crate with the plain compiler; returns (ok, diagnostics)"""
    l = lib(cfg)
    name = os.path.splitext(os.path.basename(src_path))[0]
    cmd = ["rustc", "+nightly", src_path, "--crate-type", "lib", "--crate-name", name, "--emit", "metadata", "-o", os.path.join(out_dir, "lib" + name + ".rmeta")]
    cmd += l.args(edition) + (["--error-format=json"] if json_errors else []) + list(extra)
    r = sh(cmd)
    diags = []
    for line in r.stderr.splitlines():
        try:
            diags.append(json.loads(line))
        except ValueError:
            pass
    return r.returncode == 0, diags, r


MEMORY = 6 << 30


def analyse(src_path, cfg="default", edition="2018", entry=None, mode=None, timeout=600):
    """run the driver over one witness crate; returns its report"""
    l = lib(cfg)
    name = os.path.splitext(os.path.basename(src_path))[0]
    out = src_path + ".json"
    env = dict(driver_env())
    env["VP_OUT"] = out
    if entry:
        env["VP_ENTRY"] = entry
    if mode:
        env["VP_MODE"] = mode
    cmd = [driver(), src_path, "--crate-type", "lib", "--crate-name", name, "--emit", "metadata", "-o", os.path.join(os.path.dirname(src_path), "lib" + name + ".rmeta")] + l.args(edition) + ["--error-format=json"]
    if DEADLINE:
        env["VP_UNTIL"] = str(int(DEADLINE - 200))
        timeout = max(1, min(timeout, DEADLINE - time.time()))
    try:
        r = sh(cmd, env=env, timeout=timeout, memory=MEMORY)
    except subprocess.TimeoutExpired:
        return {"unfinished": "time limit"}, ""
    if r.returncode == 0 and os.path.exists(out):
        with open(out) as f:
            return json.load(f), r.stderr
    if r.returncode < 0 or not rejected(r.stderr):
        return {"unfinished": "the analysis ended with status %d: %s" % (r.returncode, r.stderr.strip()[-300:])}, r.stderr
    return None, r.stderr


def rejected(stderr):
    """the compiler reported an error in the program (and did not merely break down)"""
    for line in stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error":
            return True
    return False


def analyse_many(jobs, workers=8):
    """jobs: list of (key, src_path, kwargs)"""
    driver()
    for c in {k.get("cfg", "default") for _, _, k in jobs}:
        lib(c)
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(lambda j: (j[0],) + analyse(j[1], **j[2]), jobs))
    return res


if __name__ == "__main__":
    driver()
    for c in sys.argv[1:] or ["default"]:
        t = time.time()
        try:
            lib(c)
            print(c, "ok %.1fs" % (time.time() - t))
        except BuildError as e:
            print(c, "does not compile %.1fs" % (time.time() - t))
            print(str(e)[:1500])
