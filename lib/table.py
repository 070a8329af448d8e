"""Conformance of the real library with spec/HudiTable.tla: behaviours drawn by
TLC from HudiGen are replayed into tables on storage; every observation carries
the value the specification gives it."""
import json, os, shutil, subprocess, time
from common import *

MIX = dict(insert=1, upsert=2, delete=1, compact=1, overwrite=1, drop=1, cluster=1, empty=1, step=10, torn=1, rollback=1, clean=1, archive=1, open=1)
QS = dict(snap=1, asof=1, incr=1, slices=1, splits=1, ibetween=1, slread=1, islread=1, tl=1, schema=1)
INV = ["ReadIsLogical", "LiveOnce", "OnlyCommitted", "IncrExact", "ReadOptimizedIsBase"]
MC_BASE = dict(Parts={1}, Keys={1, 2}, Ords={1, 2}, MaxClock=6, MaxFid=2, Mor=True, App=False,
               Kinds={"insert", "update", "compact", "rollback"}, MaxPending=2, MaxBlocks=3, WithHandle=False)
# exhaustively checked models: name -> (constants, seconds with 4 workers)
MC = {
    "mor_rb": dict(),
    "mor_rb8": dict(MaxClock=8, MaxFid=1, Keys={1}),
    "cow_all": dict(Mor=False, Keys={1}, Kinds={"insert", "update", "delete", "rollback", "torn", "clean"}, WithHandle=True),
    "cow_repl": dict(Mor=False, Keys={1}, MaxFid=3, Kinds={"insert", "overwrite", "drop", "cluster", "rollback"}),
    "mor_handle": dict(Keys={1}, Kinds={"insert", "update", "compact", "clean", "archive", "rollback"}, WithHandle=True),
    "mor_incr8": dict(Keys={1}, MaxClock=8, MaxPending=1, Kinds={"insert", "update", "compact", "cluster", "overwrite"}),
    "two_parts": dict(Parts={1, 2}, Keys={1}, Mor=False, MaxPending=1, Kinds={"insert", "update", "overwrite", "drop", "cluster", "archive", "clean"}),
    "app": dict(App=True, Keys={1}, MaxClock=8, MaxFid=1, Kinds={"insert", "update", "compact", "rollback"}),
    # deeper ones (thorough)
    "deep_mor": dict(MaxClock=8, Keys={1}, Kinds={"insert", "update", "compact", "rollback"}, WithHandle=True),
    "deep_all": dict(Keys={1}, MaxFid=2, Kinds={"insert", "update", "two", "compact", "overwrite", "drop", "cluster", "rollback", "torn", "clean", "archive"}, WithHandle=True),
    "deep_cow": dict(Mor=False, MaxFid=3, Keys={1, 2}, Kinds={"insert", "update", "two", "delete", "overwrite", "drop", "cluster", "rollback", "torn", "clean", "archive"}, WithHandle=True),
    "deep_repl": dict(Mor=False, Keys={1}, MaxClock=8, MaxFid=4, Kinds={"insert", "update", "overwrite", "drop", "cluster", "rollback", "archive"}),
    "deep_rb": dict(MaxClock=10, MaxFid=1, Keys={1}, MaxBlocks=5, Kinds={"insert", "update", "compact", "rollback"}),
    "deep_keys": dict(Keys={1, 2, 3}, Ords={-1, 1, 2}, MaxFid=1, MaxClock=6, MaxPending=1, Kinds={"insert", "update", "compact"}),
}


def seq(w):
    return [k for k, n in w.items() for _ in range(n)]


def check_models(work, names, workers, timeout):
    out = []
    for n in names:
        c = dict(MC_BASE)
        c.update(MC[n])
        out.append(model_check(work, n, "MC", c, INV, ["HandleStable"], workers=workers, timeout=timeout))
    return out


class Gen:
    def __init__(self, n, mix=None, qs=None, steps=60, battery=12, obs=15, mor=(True, False), app=(True, False), dims=(0, 1, 2),
                 keys=4, ords=(-1, 1, 2, 3), maxh=0, filters=True, focus="", ext="HudiGen", args=(), crate=None):
        self.__dict__.update(locals())
        self.args = list(args)

    def write(self, d, name):
        mix = dict(self.mix or MIX)
        if self.maxh == 0:
            mix["open"] = 0
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\nMixDef == %s\nQsDef == %s\nOrdDef == %s\n====\n" % (
                name, self.ext, tla(seq(mix)), tla(seq(self.qs or QS)), tla(set(self.ords))))
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write("SPECIFICATION GenSpec\nCONSTANTS\n  Steps = %d\n  Battery = %d\n  ObsPct = %d\n  MorSet = %s\n  AppSet = %s\n  DimsSet = %s\n"
                    "  Keys = %s\n  OrdSet <- OrdDef\n  MaxH = %d\n  Filters = %s\n  Mix <- MixDef\n  Qs <- QsDef\n"
                    "INVARIANTS GenReadIsLogical GenLiveOnce GenOnlyCommitted GenIncrExact GenReadOptimized\nCHECK_DEADLOCK FALSE\n" % (
                        self.steps, self.battery, self.obs, tla(set(self.mor)), tla(set(self.app)), tla(set(self.dims)),
                        tla(set(range(1, self.keys + 1))), self.maxh, tla(self.filters)))


def generate(work, gens, seed, jvms, timeout):
    """Draws sum(g.n) behaviours; returns a list of (gen index, program line)."""
    d = spec_dir(work, "gen")
    jobs = []
    for gi, g in enumerate(gens):
        name = "Gen%d" % gi
        g.write(d, name)
        share = max(1, round(jvms * g.n / sum(x.n for x in gens)))
        for j in range(share):
            n = g.n // share + (1 if j < g.n % share else 0)
            if n:
                jobs.append((gi, name, n, seed * 1000 + gi * 100 + j + 1))
    res = [None] * len(jobs)
    stats = {"states": 0}

    def one(i):
        gi, name, n, s = jobs[i]
        jd = os.path.join(d, "j%d" % i)
        os.makedirs(jd)
        for f in os.listdir(d):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(d, f), jd)
        rc, out = tlc(jd, name + ".tla", name + ".cfg", ["-simulate", "num=%d" % n, "-depth", "2000", "-seed", str(s), "-workers", "1"], timeout, heap="1500m")
        lines = [json.loads(json.loads(x))["hist"] for x in out.splitlines() if x.startswith('"{')]
        if (rc != 0 and not (rc is None and lines)) or not lines:
            raise ToolError("generation %s: TLC status %s\n%s" % (name, rc, "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-3000:]))
        m = re.findall(r"(\d+) states checked", out) or re.findall(r"generated (\d+) states", out)
        stats["states"] += int(m[-1]) if m else sum(len(x) for x in lines)
        res[i] = [(gi, x) for x in lines]
        shutil.rmtree(jd, ignore_errors=True)

    p = Par()
    for i in range(len(jobs)):
        p.go(i, one, i)
    p.wait()
    progs = [x for r in res for x in r]
    log("generated", len(progs), "behaviours")
    return progs, stats


def replay(work, binary, programs, focus, seed, tag, hang=120, extra=()):
    """Replays programs (list of event lists); returns the harness report."""
    pf = work.path("prog-%s.ndjson" % tag)
    with open(pf, "w") as f:
        for p in programs:
            f.write(json.dumps(p) + "\n")
    out = work.path("rep-%s.json" % tag)
    cmd = [binary, "replay", "--programs", pf, "--focus", focus, "--seed", str(seed), "--work", os.path.join(work.tables, tag),
           "--out", out, "--threads", str(NCPU), ] + ([] if "--hang" in extra else ["--hang", str(hang)]) + list(extra)
    # focus "dst": clocks are set back from 02:00 to 01:00 on 2023-11-05
    env = dict(os.environ, TZ="EST5EDT,M3.2.0,M11.1.0") if "dst" in focus else None
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if not os.path.exists(out):
        raise ToolError("replay ended with status %s\n%s" % (r.returncode, r.stdout[-3000:]))
    rep = json.load(open(out))
    for f in rep["failures"]:
        f["focus"] = focus
        f["args"] = list(extra)
        f["binary"] = os.path.basename(binary)
        f["seed"] = seed
        f["events"] = programs[f["program"]][: f["event"] + 1]
    log("replayed", rep["programs"], "programs", {k: v["made"] for k, v in rep["observations"].items()}, len(rep["failures"]), "failures")
    return rep
