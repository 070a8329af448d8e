"""Shared machinery of the checks: building the harness, running TLC, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """Something of the machinery failed: exit status 2, never a verdict."""


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, file=sys.stderr, flush=True)


def tree_hash(*subdirs):
    h = hashlib.sha256()
    for d in subdirs:
        root = os.path.join(REPO, d)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in ("target", "__pycache__", ".git"))
            for f in sorted(fn):
                if f.endswith((".rs", ".toml", ".py", ".pyi")):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in ("Cargo.toml",):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="1.84-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(VERIF, "target"), CARGO_PROFILE_DEV_DEBUG="0",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return e


PACKAGE = os.path.join(VERIF, "target", "py")


def build(crate):
    """Builds /verif/<crate> against /repo's working tree."""
    d = os.path.join(VERIF, crate)
    env = cargo_env()
    target = env["CARGO_TARGET_DIR"]
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo-hash")
    now = tree_hash("crates", "python")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        # cargo goes by modification times; do not rely on them
        fp = os.path.join(target, "debug", ".fingerprint")
        for x in os.listdir(fp) if os.path.isdir(fp) else []:
            if x.startswith("hudi"):
                shutil.rmtree(os.path.join(fp, x))
        with open(stamp, "w") as f:
            f.write(now)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("%s does not build against /repo:\n%s" % (crate, r.stdout[-3000:]))
    if crate == "harness-py":
        # the package as installed
        shutil.rmtree(PACKAGE, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "python", "hudi"), os.path.join(PACKAGE, "hudi"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        shutil.copy(os.path.join(target, "debug", "libhudi.so"), os.path.join(PACKAGE, "hudi", "_internal.abi3.so"))
    log("built", crate)


class Work:
    """A scratch directory, removed at the end; tables go to memory if possible."""

    def __init__(self, name):
        n = "%s-%d" % (name, os.getpid())
        self.dir = os.path.join(VERIF, "work", n)
        shm = "/dev/shm"
        base = shm if os.path.isdir(shm) and os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 2 << 30 else os.path.join(VERIF, "work")
        self.tables = os.path.join(base, "hv-" + n)
        for d in (self.dir, self.tables):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        for d in (self.dir, self.tables):
            shutil.rmtree(d, ignore_errors=True)


class Raw(str):
    """A TLA+ expression, given to a constant by way of a definition."""


def write_model(d, module, spec, consts, rest):
    """M.tla/M.cfg for TLC: the module with these constants."""
    cfg, defs = "SPECIFICATION %s\nCONSTANTS\n" % spec, ""
    for k, v in consts.items():
        if isinstance(v, (Raw, list, tuple, dict)) or (isinstance(v, (set, frozenset)) and any(isinstance(x, (tuple, frozenset)) for x in v)):
            cfg += "  %s <- Def%s\n" % (k, k)
            defs += "Def%s == %s\n" % (k, v if isinstance(v, Raw) else tla(v))
        else:
            cfg += "  %s = %s\n" % (k, tla(v))
    with open(os.path.join(d, "M.tla"), "w") as f:
        f.write("---- MODULE M ----\nEXTENDS %s\n%s====\n" % (module, defs))
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg + rest + "CHECK_DEADLOCK FALSE\n")


def shown(consts):
    return {k: (v if isinstance(v, Raw) else tla(v))[:600] for k, v in consts.items()}


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, Raw):
        return v
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(map(tla, v))) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(map(tla, v)) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def tlc(cwd, module, cfg, args, timeout, heap="3g"):
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(cwd, "meta-" + os.path.basename(cfg)), "-config", cfg] + args + [module]
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    shutil.rmtree(os.path.join(cwd, "meta-" + os.path.basename(cfg)), ignore_errors=True)
    return r.returncode, r.stdout


def spec_dir(work, name):
    d = work.path(name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def model_check(work, name, module, consts, invariants, properties=(), workers=2, timeout=600, spec="Spec", complete=True, constraint=None):
    """Exhaustive TLC run. Returns dict(states, distinct, depth). A violated
    invariant here means the specification is inconsistent: a tool error."""
    d = spec_dir(work, "mc-%s-%s" % (module, name))
    write_model(d, module, spec, consts, ("INVARIANTS " + " ".join(invariants) + "\n" if invariants else "") + "".join("PROPERTY %s\n" % p for p in properties)
                + ("CONSTRAINT %s\n" % constraint if constraint else ""))
    t0 = time.time()
    rc, out = tlc(d, "M.tla", "M.cfg", ["-workers", str(workers)], timeout)
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    if rc is None:
        if complete:
            raise ToolError("model %s did not finish in %d s" % (name, timeout))
    elif rc != 0:
        raise ToolError("model %s: TLC status %s\n%s" % (name, rc, out[-4000:]))
    shutil.rmtree(d, ignore_errors=True)
    return {"model": name, "module": module, "constants": shown(consts), "checked": list(invariants) + list(properties),
            "states_generated": gen, "distinct_states": dist, "depth": int(dm.group(1)) if dm else None,
            "complete": rc == 0, "wall_s": round(time.time() - t0, 1)}


def refute(work, name, module, consts, invariants, properties=(), workers=2, timeout=600, spec="Spec"):
    """TLC must find the properties violated: a design known to be wrong."""
    d = spec_dir(work, "rf-%s-%s" % (module, name))
    write_model(d, module, spec, consts, ("INVARIANTS " + " ".join(invariants) + "\n" if invariants else "") + "".join("PROPERTY %s\n" % p for p in properties))
    rc, out = tlc(d, "M.tla", "M.cfg", ["-workers", str(workers)], timeout)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"(?:Invariant|Temporal property) (\w+) (?:is|was) violated", out)
    if rc not in (12, 13) or not m:
        raise ToolError("wrong design %s of %s is not refuted (TLC status %s)\n%s" % (name, module, rc, out[-2000:]))
    return {"wrong_design": name, "module": module, "refuted_by": m.group(1)}


def emit(work, name, module, consts, spec="Spec", invariants=(), args=(), timeout=3000, heap="2g"):
    """The JSON values a specification prints (one worker: in order)."""
    d = spec_dir(work, "emit-" + name)
    write_model(d, module, spec, consts, "INVARIANTS " + " ".join(invariants) + "\n" if invariants else "")
    rc, out = tlc(d, "M.tla", "M.cfg", ["-workers", "1"] + list(args), timeout, heap=heap)
    lines = [json.loads(x) for x in out.splitlines() if x.startswith('"{')]
    if rc != 0 or not lines:
        raise ToolError("cases of %s: TLC status %s\n%s" % (module, rc, "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-2000:]))
    shutil.rmtree(d, ignore_errors=True)
    return lines


class Par:
    """Runs functions in threads; re-raises the first exception."""

    def __init__(self):
        self.th = []
        self.res = {}
        self.err = []

    def go(self, name, fn, *a, **k):
        def run():
            try:
                self.res[name] = fn(*a, **k)
            except BaseException as e:  # noqa
                self.err.append(e)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        self.th.append(t)

    def wait(self):
        for t in self.th:
            t.join()
        if self.err:
            raise self.err[0]
        return self.res
