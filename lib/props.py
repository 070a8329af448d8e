"""Which machinery decides which property."""
import json, os, random, shutil, subprocess
from common import *
import table
from table import Gen, MIX, QS

TRUST = ["The writer of the harness builds tables as Hudi writers of table version 5/6 do (names, commit metadata, log format).",
         "Bounds: at most 4 keys and 3 precombine values plus null per behaviour, at most 4 partitions, 60 writer steps (quick)."]


def binary(crate):
    return os.path.join(VERIF, "target", "debug", {"harness": "hv", "harness-df": "hvdf"}[crate])


class Models:
    """A specification module checked on its own: it must satisfy its
    properties, and the wrong designs given must be refuted."""

    def __init__(self, module, invariants, properties, good, bad, deep=()):
        self.__dict__.update(locals())

    def start(self, par, i, work, tier, seed):
        good = list(self.good) + (list(self.deep) if tier != "quick" else [])
        par.go("models%d" % i, lambda: [model_check(work, n, self.module, c, self.invariants, self.properties, workers=2 if tier == "quick" else 4,
                                                    timeout=700 if tier == "quick" else 5400) for n, c in good]
               + [refute(work, n, self.module, c, self.invariants, self.properties) for n, c in self.bad])

    def finish(self, res, i, work, tier, seed):
        r = res["models%d" % i]
        return [], {"states": sum(m.get("distinct_states", 0) for m in r), "transitions": sum(m.get("states_generated", 0) for m in r), "module_" + self.module: r}


def reader(variant, workers=1, calls=2, **k):
    return dict(dict(Calls=set(range(1, calls + 1)), Parts={1, 2}, Workers=workers, Variant=variant, MaxFaults=1, MaxCancel=1, Snap=False), **k)


READER = Models("Reader", ["Isolated", "ErrOnlyIfHit", "HitIsTold"], ["AllFinish"],
                [("reader-1", reader("local")), ("reader-2", reader("local", 2))],
                [("shared", reader("shared")), ("lock", reader("lock")), ("swallow", reader("swallow")), ("unfiltered", reader("unfiltered"))],
                [("reader-3", reader("local", 2, 3, Snap=True)), ("reader-3f", reader("local", 1, 3, MaxFaults=2, MaxCancel=0, Snap=True))])


class Cases:
    """A specification module whose behaviours are cases: checked exhaustively,
    wrong designs refuted, and its cases run on the real library by a command
    of the harness."""

    def __init__(self, module, command, invariants, good, bad, emits, properties=(), deep=(), quick=1.0, deep_emits=(), crate="harness", shard=False, args=()):
        self.__dict__.update(locals())
        self.binary = binary(crate)

    def consts(self, c, seed):
        return {k: v(random.Random("%s" % seed)) if callable(v) else v for k, v in c.items()}

    def start(self, par, i, work, tier, seed):
        quick = tier == "quick"
        good = list(self.good) + ([] if quick else list(self.deep))
        par.go("good%d" % i, lambda: [model_check(work, n, self.module, self.consts(c, seed), self.invariants, self.properties,
                                                  workers=2 if quick else 4, timeout=700 if quick else 8000) for n, c in good])
        for b in range(2):
            par.go("bad%d.%d" % (i, b), lambda b=b: [refute(work, n, self.module, self.consts(c, seed), self.invariants, self.properties, workers=1) for n, c in self.bad[b::2]])
        ems = list(self.emits) + ([] if quick else list(self.deep_emits))
        for j, (n, c) in enumerate(ems):
            for k in range(1 if quick else 4):
                par.go("emit%d.%d.%d" % (i, j, k), emit, work, "%s-%d-%d" % (n, i, k), self.module, self.consts(c, "%d.%d%s" % (seed, k, n if j else "")))

    def hv(self, work, lines, seed, tag):
        if not self.shard or len(lines) < 2 * NCPU:
            return self.hv1(work, lines, seed, tag)
        # one thread per process: the cases change the environment
        p = Par()
        for k in range(NCPU):
            p.go(k, self.hv1, work, [json.dumps(dict(json.loads(x), idx=i)) for i, x in enumerate(lines) if i % NCPU == k], seed, "%s.%d" % (tag, k))
        reps, viol = {"cases": 0, "seen": {}, "samples": [], "failures": []}, []
        for rep, v in p.wait().values():
            viol += v
            reps["cases"] += rep["cases"]
            reps["samples"] += rep["samples"]
            reps["failures"] += rep["failures"]
            for k, n in rep["seen"].items():
                reps["seen"][k] = reps["seen"].get(k, 0) + n
        return reps, viol

    def hv1(self, work, lines, seed, tag):
        cf, out = work.path("cases-%s.ndjson" % tag), work.path("rep-%s.json" % tag)
        with open(cf, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run([self.binary, self.command, "--cases", cf, "--seed", str(seed), "--work", os.path.join(work.tables, tag), "--out", out,
                            "--threads", "1" if self.shard else str(NCPU), "--hang", "60", *self.args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise ToolError("%s: status %s\n%s" % (self.command, r.returncode, r.stdout[-3000:]))
        rep = json.load(open(out))
        for f in rep["failures"]:
            if f.get("harness"):
                raise ToolError("harness: %s\n%s" % (f["problem"], json.dumps(f["case"])[:800]))
        log(self.command, rep["cases"], "cases", rep["seen"], len(rep["failures"]), "failures")
        return rep, [{"key": f["problem"][:120], **f, "problem": "%s: %s" % (json.dumps(f["case"])[:400], f["problem"])} for f in rep["failures"]]

    def finish(self, res, i, work, tier, seed):
        quick = tier == "quick"
        lines = sorted(set(x for k in sorted(k for k in res if k.startswith("emit%d." % i)) for x in res[k]))
        total = len(lines)
        if quick and self.quick < 1:
            rnd = random.Random(seed)
            lines = [x for x in lines if rnd.random() < self.quick]
        viol, ran, seen, samples = [], 0, {}, []
        for rnd in range(1 if quick else 3):
            rep, v = self.hv(work, lines, seed * 100 + rnd, "%s%d-%d" % (self.command, i, rnd))
            viol += [dict(x, part=i) for x in v]
            ran += rep["cases"]
            samples = samples or rep["samples"]
            for k, n in rep["seen"].items():
                seen[k] = seen.get(k, 0) + n
        m = res["good%d" % i]
        return viol, {"states": sum(x["distinct_states"] for x in m) + total, "transitions": sum(x["states_generated"] for x in m) + total,
                      "traces_validated_against_impl": ran, "samples": [json.dumps(x)[:1500] for x in samples[:2]],
                      "module_%s%s" % (self.module, i or ""): {"models": m, "refuted": res["bad%d.0" % i] + res["bad%d.1" % i], "cases_of_the_model": total, "cases_run": ran, "observed": seen}}

    def replay(self, work, v):
        build(self.crate)
        return self.hv(work, [json.dumps(v["case"])], v["seed"], "r")[1]


def lay(variant="merge", **k):
    return dict(dict(Encs={"avro", "parquet"}, Formats={1}, Jumps={1}, MaxEmpty=0, MaxBlocks=4, Variant=variant, Emit=False), **k)


def scenarios(n, writes, most, keys=3):
    """n random scenarios: what is written, not how."""
    def f(rnd):
        out = []
        for i in range(n):
            rec = lambda k: [k, rnd.choice([-1, 1, 2, 3])]  # noqa
            ks = list(range(1, keys + 1))
            app = i % 4 == 3
            base = [rec(k) for k in rnd.sample(ks, rnd.randint(1, keys - 1))]
            ws = []
            for _ in range(writes):
                # a key at most once per write, except in append-only tables
                m = rnd.randint(1, most)
                ws.append([rec(k) for k in ([rnd.choice(ks) for _ in range(m)] if rnd.random() < .5 else rnd.sample(ks, min(m, keys)))])
            out.append(tla(dict(app=app, base=base, writes=ws)))
        return Raw("{" + ", ".join(out) + "}")
    return f


FIXED = Raw("{" + ", ".join(tla(x) for x in [
    dict(app=False, base=[(1, 2), (2, 2)], writes=[[(1, 3), (2, 1), (1, 1)], [(1, 3), (3, -1)]]),
    dict(app=False, base=[(1, 1), (2, -1)], writes=[[(1, 1), (2, -1)], [(2, 3)], [(2, 2), (1, 1)]]),
    dict(app=True, base=[(1, 2)], writes=[[(1, 3), (1, 3)], [(2, 3), (3, 1)]])]) + "}")
LAYOUT = Cases("Layout", "layout", ["LayoutFree"],
               [("lay-fixed", lay(Scenarios=FIXED, Jumps={1, 9}, MaxEmpty=1)), ("lay-random", lay(Scenarios=scenarios(30, 2, 3)))],
               [(v, lay(v, Scenarios=FIXED, Jumps={1, 9})) for v in ("last", "perfile", "onefile", "first", "encoding", "versions")],
               [("a", lay(Scenarios=scenarios(3, 2, 2), Jumps={1, 9}, Emit=True)), ("b", lay(Scenarios=scenarios(4, 2, 2), Formats={1, 2, 3}, MaxBlocks=2, Emit=True)),
                ("c", lay(Scenarios=scenarios(2, 3, 1), MaxEmpty=1, Emit=True))],
               deep=[("lay-deep", lay(Scenarios=scenarios(60, 3, 3), MaxBlocks=6))],
               quick=0.5,
               deep_emits=[("d", lay(Scenarios=scenarios(2, 3, 2), Emit=True, MaxBlocks=5))])


CONFIG_OPTS = {"name", "type", "version", "layout", "format", "drop", "populates", "hive", "urlenc", "ro", "skip", "strategy",
               "precombine", "tz", "checksum", "input", "listing", "db", "opaque", "store"}
CONFIG_WRONG = ("generic", "user", "global", "first", "env", "spelled", "lenient", "early", "leak", "reader")


def cfg(opts=CONFIG_OPTS, most=2, variant="strict", **k):
    return dict(dict(Most=most, Opts=set(opts), Sources={"props", "explicit", "generic", "global", "env", "reader"}, Extra=set(), Variant=variant, Emit=False), **k)


def some(always, k):
    return lambda rnd: set(always) | set(rnd.sample(sorted(CONFIG_OPTS - set(always)), k))


CONFIG_INV = ["Resolved", "Refused", "RowsRight"]
CONFIG = Cases("Config", "config", CONFIG_INV,
               [("cfg-2", cfg({"opaque", "store", "strategy", "precombine", "ro", "populates", "type"})), ("cfg-4", cfg({"opaque", "store"}, 3))],
               [(v, cfg({"opaque", "store", "type", "strategy", "ro"}, variant=v)) for v in CONFIG_WRONG],
               [("a", cfg({"opaque", "store", "strategy", "precombine", "ro", "populates", "db", "name", "tz"}, Emit=True)),
                ("b", cfg({"opaque", "store"}, 3, Emit=True)), ("c", cfg({"opaque"}, 4, Emit=True)),
                ("d", dict(cfg(most=3, Emit=True), Opts=some({"strategy"}, 1)))],
               deep=[("cfg-all", cfg()), ("cfg-3", cfg({"opaque", "store", "strategy", "precombine", "ro"}, 3))],
               deep_emits=[("e", dict(cfg(most=3, Emit=True), Opts=some({"opaque"}, 3)))], shard=True)
VALID = Cases("Config", "config", CONFIG_INV,
              [("cfg-all", cfg())], [(v, cfg({"type", "strategy", "populates"}, variant=v)) for v in ("lenient", "early", "user")],
              [("a", cfg(Emit=True))], quick=0.5,
              deep=[("cfg-merge", cfg({"populates", "strategy", "precombine", "skip"}, 3))],
              deep_emits=[("m", cfg({"populates", "strategy", "precombine"}, 3, Emit=True)), ("r", dict(cfg(most=3, Emit=True), Opts=some({"skip"}, 2)))], shard=True)

# sessions with builders, in Rust and (with dictionaries of the caller) in Python
SESSION_WRONG = ("alias", "default", "category", "first", "generic", "forget", "promote")
SESSION_INV = ["FromOwn", "OwnKept"]


def ses(variant="strict", **k):
    return dict(dict(MaxTold=2, MaxBuilt=2, Aliens=True, Variant=variant, Emit=False), **k)


SESSION = Cases("Session", "session", SESSION_INV, [("ses-3", ses(MaxTold=3, Aliens=False))], [(v, ses(v)) for v in SESSION_WRONG], [("all", ses(Aliens=False, Emit=True))],
                deep_emits=[("more", ses(Aliens=False, MaxTold=3, Emit=True))], shard=True)
PY = ("--python", os.path.join(VERIF, "harness-py", "child.py"), "--package", PACKAGE)
PYSESSION = Cases("Session", "session", SESSION_INV, [("ses-2", ses())], [(v, ses(v)) for v in SESSION_WRONG], [("all", ses(Emit=True))],
                  deep=[("ses-3", ses(MaxTold=3))], quick=0.1, shard=True, args=PY)
PYCONFIG = Cases("Config", "config", CONFIG_INV, [], [], [("a", cfg(CONFIG_OPTS - {"format", "layout", "checksum"}, Emit=True))], quick=0.15,
                 deep_emits=[("c", cfg({"opaque", "store"}, 3, Emit=True))], shard=True, args=PY)

TOKENS = {".", "_", "parquet", "log", "f1", "g", "x", "c1", "n", "9", "w", "crc", "cdc", "commit", "deltacommit", "requested", "inflight", "clean"}


def tokens(k):
    return lambda rnd: set(rnd.sample(sorted(TOKENS), k))


NAMES_C = dict(MaxEdits=2, EmitFrom=0, Dirs={"tl", "part"}, Toks=TOKENS, Variant="strict", Emit=False)
NAMES_WRONG = ("trailing", "last", "prefix", "pending", "action", "parts", "digits", "skip", "ext", "tail")
NAMES = Cases("Names", "args", ["Classified"], [("names-2", NAMES_C)], [(v, dict(NAMES_C, Variant=v, MaxEdits=1)) for v in NAMES_WRONG],
              [("one", dict(NAMES_C, MaxEdits=1, Emit=True))])
NAMES2 = Cases("Names", "args", ["Classified"], [], [], [(n, dict(NAMES_C, EmitFrom=2, Toks=tokens(4), Emit=True)) for n in ("two", "tvo", "tuo")], quick=0.2,
               deep_emits=[("all", dict(NAMES_C, EmitFrom=2, Emit=True))])
ARGS_C = dict(Kinds={"time", "filter", "place"}, Lengths={0, 8, 13, 14, 15, 16, 17, 18}, Times={1, 2, 6}, MaxForeign=2, Variant="strict", Emit=False)
ARGS_WRONG = ("bytes", "chars", "prefix", "fields", "short", "start", "column", "value", "text", "op")
ARGS = Cases("Args", "args", ["Meant"], [("args", ARGS_C)], [(v, dict(ARGS_C, Variant=v, Lengths={8, 11, 12, 14, 15}, Times={2}, Kinds={"filter"} if v in ("column", "value", "text", "op") else {"time"})) for v in ARGS_WRONG],
             [("time", dict(ARGS_C, Kinds={"time"}, Times={1, 3, 6}, Emit=True))],
             deep=[("args-all", dict(ARGS_C, Lengths=set(range(0, 21)), Times={1, 2, 3, 5, 6, 7}))],
             deep_emits=[("times", dict(ARGS_C, Kinds={"time"}, Lengths=set(range(0, 19)) | {20, 21, 34}, Times={1, 2, 3, 5, 6, 7}, Emit=True))], quick=0.3)
ARGS2 = Cases("Args", "args", ["Meant"], [], [], [("rest", dict(ARGS_C, Kinds={"filter", "place"}, Emit=True))])


# filters on partition columns of many types, partitions of any form
CLASSES, STYLES = {"str", "num", "ord", "bool"}, {"hive", "plain", "enc", "hiveenc"}
PRUNE_WRONG = ("drop", "text", "raw", "or", "last", "first", "order", "names", "zip", "strict", "unless")
PRUNE_INV = ["KeepsRight", "NoneLost"]


def given(n, cols=(1, 2, 2, 3), filters=(1, 2, 2, 3)):
    """n random cases."""
    def f(rnd):
        out = []
        for _ in range(n):
            ks = [rnd.choice(["str", "num", "num", "ord", "bool"]) for _ in range(rnd.choice(cols))]
            fs = []
            for _ in range(rnd.choice(filters)):
                c = rnd.randrange(len(ks))
                fs.append(dict(c=c + 1, op=rnd.choice(["=", "!=", "<", "<=", ">", ">="]), x=rnd.choice([2, 4]) if ks[c] == "bool" else rnd.randint(1, 5)))
            out.append(tla(dict(kinds=ks, style=rnd.choice(sorted(STYLES)), fs=fs)))
        return Raw("{" + ", ".join(out) + "}")
    return f


def prn(variant="right", **k):
    return dict(dict(Given=set(), MaxCols=1, MaxFilters=1, Classes=CLASSES, Styles=STYLES, Variant=variant, Emit=False), **k)


def prune(command="prune", n=500, one=True, **k):
    bad = [(v, prn(v, MaxCols=2 if v in ("order", "unless", "zip", "names") else 1, MaxFilters=2 if v in ("or", "last", "first") else 1,
                   Classes=CLASSES if v == "strict" else {"str", "num"}, Styles={"hive", "enc"})) for v in PRUNE_WRONG]
    return Cases("Prune", command, PRUNE_INV, [("prune-2", prn(MaxCols=2, Styles={"hive", "enc"})), ("prune-3", prn(MaxCols=3, MaxFilters=0, Classes={"str", "num"}, Styles={"hive", "plain"}))], bad,
                 ([("one", prn(Emit=True))] if one else []) + [("some", prn(MaxCols=0, Given=given(n), Emit=True))],
                 deep=[("prune-f2", prn(MaxFilters=2)), ("prune-2s", prn(MaxCols=2))],
                 deep_emits=[("two", prn(MaxCols=0, Given=given(1500, (2, 3)), Emit=True))], **k)


PRUNE = prune()
PRUNESQL = prune(n=250, one=False, crate="harness-df")


class TableCheck:
    """Exhaustive model checking of spec/HudiTable.tla and replay of behaviours
    of spec/HudiGen.tla into the real library."""
    level = "model_checking"
    technique = "TLA+ specification of table, writers and reader, model-checked with TLC; behaviours generated from it replayed into the real library"
    note = ("Exhaustive on the small models (constants in the evidence), random behaviours of the same specification replayed on the real code; "
            "trusts the harness's table writer and TLC.")

    def __init__(self, models, deep, gens, thorough=6, assumptions=(), parts=(), crate="harness", also=()):
        self.also = list(also)
        self.models, self.deep, self.gens, self.thorough = models, deep, gens, thorough
        self.assumptions = list(assumptions) + TRUST
        self.crate = crate
        self.binary = binary(crate)
        self.parts = list(parts)  # further components: objects with start(par, work, tier, seed) and finish(res)

    def run(self, work, tier, seed):
        quick = tier == "quick"
        gens = self.gens
        if not quick:
            gens = []
            for g in self.gens:
                k = dict(g.__dict__)
                for x in ("self",):
                    k.pop(x)
                k.update(n=g.n * self.thorough)
                gens.append(Gen(**k))
                k2 = dict(k)
                k2.update(n=max(8, g.n), steps=g.steps * 3, battery=g.battery * 2)
                gens.append(Gen(**k2))
        p = Par()
        p.go("build", lambda: [build(c) for c in [self.crate] + self.also])
        if self.models:
            p.go("mc", table.check_models, work, self.models + ([] if quick else self.deep), 2 if quick else 4, 600 if quick else 5400)
        if gens:
            p.go("gen", table.generate, work, gens, seed, 6, 800 if quick else 5400)
        for i, c in enumerate(self.parts):
            c.start(p, i, work, tier, seed)
        res = p.wait()
        viol, cov = [], {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        mc = res.get("mc", [])
        cov["models"] = mc
        if gens:
            progs, gst = res["gen"]
            cov["states"] += gst["states"]
            cov["replay"] = []
            for gi, g in enumerate(gens):
                mine = [x for i, x in progs if i == gi]
                rep = table.replay(work, binary(g.crate or self.crate), mine, g.focus, seed * 100 + gi, "g%d" % gi, extra=g.args)
                viol += failures(rep)
                cov["transitions"] += rep["events"]
                cov["traces_validated_against_impl"] += rep["programs"]
                cov["samples"] += [json.dumps(s)[:1500] for s in rep["samples"][:2]]
                cov["replay"].append({"programs": rep["programs"], "steps": g.steps, "focus": g.focus, "events": rep["events"],
                                      "args": g.args,
                                      "observations": rep["observations"], "distinct_nontrivial": rep["distinct_nontrivial"],
                                      "faults": rep.get("faults"), "python": rep.get("python") or None, "storage_operations": rep.get("storage_ops"), "concurrent": rep.get("concurrent")})
        cov["states"] += sum(m["distinct_states"] for m in mc)
        cov["transitions"] += sum(m["states_generated"] for m in mc)
        for i, c in enumerate(self.parts):
            v, extra = c.finish(res, i, work, tier, seed)
            viol += v
            for k, x in extra.items():
                if k in ("states", "transitions", "traces_validated_against_impl"):
                    cov[k] += x
                elif k == "samples":
                    cov[k] += x
                else:
                    cov[k] = x
        return viol, cov

    def replay(self, work, v):
        for c in self.also:
            build(c)
        if v.get("part") is not None:
            return self.parts[v["part"]].replay(work, v)
        build(self.crate)
        of = os.path.join(os.path.dirname(self.binary), v["binary"]) if v.get("binary") else self.binary
        rep = table.replay(work, of, [v["events"]], v["focus"], v["seed"], "r", extra=["--first", str(v["program"])] + v.get("args", []))
        return failures(rep)


class CasesCheck(TableCheck):
    """Only cases of specification modules, no histories of a table."""
    technique = "TLA+ specification, model-checked with TLC; every scenario of it run on the real library and compared with the outcome specified"
    note = "Exhaustive over the scenarios of the model (constants in the evidence); concrete values are drawn at random from classes of equal meaning."

    def __init__(self, parts, crate="harness", assumptions=()):
        super().__init__([], [], [], parts=parts, crate=crate)
        self.assumptions = list(assumptions) + ["Values of a class (see harness) are interchangeable.", "TLC and the harness are trusted."]


def failures(rep):
    out = []
    for f in rep["failures"]:
        if f.get("harness"):
            raise ToolError("harness: " + f["problem"])
        out.append({"key": f["problem"][:120], "problem": "%s: %s" % (json.dumps(f["observation"])[:200], f["problem"]), **f})
    return out


class LogCheck:
    """Damaged log files: spec/LogFile.tla."""
    level = "model_checking"
    technique = "TLA+ specification of log files, damage and the reader of them, model-checked with TLC; every damaged file of it written and read by the real library"
    note = ("Exhaustive over the fields of the files of the model (damage classes per field); the real bytes of each file are damaged accordingly. "
            "Random byte damage outside the model is only checked for termination, panics and memory.")
    assumptions = TRUST + ["The parquet and apache_avro crates are trusted with the bytes inside their own framing (a Parquet file's inside, an Avro schema or datum).",
                           "Damage that yields another valid value is not detectable (the format carries no checksum) and is excluded."]
    BASE = dict(Kinds={"avro", "parquet", "roll"}, MixedVers=False, Bad={"delete", "hfile", "cdc", "corrupted"}, Variant="strict", Emit=False)
    INV = ["NeverWrong", "NeverRefused"]
    WRONG = ("eof", "magic", "command", "skip", "trust", "length")
    binary = os.path.join(VERIF, "target", "debug", "hv")

    def models(self, work, tier):
        good = [("log-1", dict(MaxBlocks=1, Vers={1, 2, 3})), ("log-2v1", dict(MaxBlocks=2, Vers={1})), ("log-2v2", dict(MaxBlocks=2, Vers={2}))]
        if tier != "quick":
            good += [("log-2mixed", dict(MaxBlocks=2, Vers={1, 2, 3}, MixedVers=True)), ("log-3", dict(MaxBlocks=3, Vers={1}))]
        r = [model_check(work, n, "LogFile", dict(self.BASE, **c), self.INV, ["Finishes"], workers=2 if tier == "quick" else 4, timeout=700 if tier == "quick" else 10000) for n, c in good]
        return r

    def wrong(self, work):
        return [refute(work, v, "LogFile", dict(self.BASE, Variant=v, Kinds={"avro", "roll"}, MaxBlocks=2 if v in ("command", "length") else 1, Vers={1},
                            Bad={"delete"} if v == "skip" else set()), self.INV, ["Finishes"]) for v in self.WRONG]

    def emit(self, work, consts, name):
        d = spec_dir(work, "emit-" + name)
        with open(os.path.join(d, "E.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in dict(self.BASE, Emit=True, **consts).items()) + "CHECK_DEADLOCK FALSE\n")
        rc, out = tlc(d, "LogFile.tla", "E.cfg", ["-workers", "1"], 3000, heap="1500m")
        lines = [json.loads(x) for x in out.splitlines() if x.startswith('"{')]
        if rc != 0 or not lines:
            raise ToolError("LogFile cases: TLC status %s\n%s" % (rc, out[-2000:]))
        groups, last = [], None
        for x in lines:
            v = json.loads(x)
            key = json.dumps([v["blocks"], v["split"], v["arch"]])
            if key != last:
                groups.append([])
                last = key
            groups[-1].append(x)
        shutil.rmtree(d, ignore_errors=True)
        return groups

    def hv(self, work, lines, seed, tag, extra=()):
        cf, out = work.path("cases-%s.ndjson" % tag), work.path("rep-%s.json" % tag)
        with open(cf, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run([self.binary, "logs", "--cases", cf, "--seed", str(seed), "--work", os.path.join(work.tables, tag), "--out", out,
                            "--threads", str(NCPU), "--hang", "60", *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise ToolError("logs: status %s\n%s" % (r.returncode, r.stdout[-3000:]))
        rep = json.load(open(out))
        return rep, [{"key": f["problem"][:120], **f, "problem": "%s: %s" % (json.dumps(f["case"])[:300], f["problem"])} for f in rep["failures"]]

    def run(self, work, tier, seed):
        quick = tier == "quick"
        p = Par()
        p.go("build", build, "harness")
        p.go("mc", self.models, work, tier)
        p.go("wrong", self.wrong, work)
        shapes = [(dict(MaxBlocks=2, Vers={v}), "v%d" % v) for v in (1, 2, 3)]
        if not quick:
            shapes += [(dict(MaxBlocks=2, Vers={1, 2, 3}, MixedVers=True), "mixed")]
        for c, n in shapes:
            p.go(n, self.emit, work, c, n)
        res = p.wait()
        groups = [g for _, n in shapes for g in res[n]]
        total = sum(map(len, groups))
        if quick:
            rnd = random.Random(seed)
            groups = [g for g in groups if len(json.loads(g[0])["blocks"]) == 1 or rnd.random() < 0.6]
        rep, viol = self.hv(work, [x for g in groups for x in g], seed, "q")
        log("damaged files", rep["cases"], len(viol), "failures")
        cov = {"models": res["mc"] + res["wrong"], "states": sum(m["distinct_states"] for m in res["mc"]) + total,
               "transitions": sum(m["states_generated"] for m in res["mc"]) + total,
               "traces_validated_against_impl": rep["cases"], "files_of_the_model": total, "files_read": rep["cases"], "by_damage": rep["kinds"],
               "samples": [json.dumps(s)[:1500] for s in rep["samples"]]}
        if not quick:
            for k in range(1, 5):
                rep, v = self.hv(work, [x for _, n in shapes for g in res[n] for x in g], seed * 1000 + k, "t%d" % k, ["--fuzz", "20"])
                viol += v
                cov["traces_validated_against_impl"] += rep["cases"]
        return viol, cov

    def replay(self, work, v):
        build("harness")
        return self.hv(work, [json.dumps(v["case"])], v["seed"], "r", ["--first", str(v["group"]), "--fuzz", "0"])[1]


def mix(**k):
    m = dict(MIX)
    m.update(k)
    return m


def qs(**k):
    return k


CRASHY = mix(torn=3, rollback=3, step=9, insert=1, upsert=4)
CHECKS = {
    "C01": TableCheck(["mor_rb", "cow_all"], ["deep_mor", "deep_all"], [
        Gen(240, mix=CRASHY, qs=qs(snap=3, asof=3, incr=2, slices=1, slread=1), obs=35, focus="ts"),
        Gen(160, mix=mix(torn=3, rollback=2, step=8, upsert=3), qs=qs(snap=2, asof=2, incr=1, slices=1), obs=35, maxh=2)]),
    "C02": TableCheck(["two_parts", "mor_incr8"], ["deep_all", "deep_cow"], [
        Gen(240, qs=qs(snap=5, asof=1), obs=30, focus="wide,extras,ord"),
        Gen(120, mix=mix(clean=3, archive=3, insert=3), qs=qs(snap=1), obs=30, focus="fat")]),
    "C03": TableCheck(["two_parts", "mor_rb8"], ["deep_all", "deep_cow"], [
        Gen(240, qs=qs(asof=5, slices=1, slread=1), obs=20, battery=20, focus="ts"),
        Gen(160, mix=mix(rollback=2, clean=0), qs=qs(asof=1), obs=10, battery=30, focus="ts,tz"),
        Gen(40, mix=mix(rollback=2, clean=0), qs=qs(asof=2, incr=1), obs=10, battery=20, focus="ts,dst")]),
    "C04": TableCheck(["cow_repl", "two_parts"], ["deep_repl", "deep_cow"], [
        Gen(320, mix=mix(overwrite=4, drop=3, cluster=4, insert=3, rollback=2), qs=qs(snap=2, asof=4, slices=2, incr=1, slread=1), obs=20, battery=16)]),
    "C05": TableCheck(["mor_incr8", "two_parts"], ["deep_mor", "deep_all", "deep_repl"], [
        Gen(320, mix=mix(clean=0), qs=qs(incr=4, islread=2, ibetween=3), obs=15, battery=20, focus="ts"),
        Gen(120, mix=mix(cluster=3, compact=3, overwrite=2), qs=qs(incr=3, islread=1, ibetween=1), battery=20, focus="ord")]),
    "C06": TableCheck(["mor_rb", "app"], ["deep_keys", "deep_mor"], [
        Gen(240, mix=mix(upsert=8, insert=1, drop=0, delete=0), qs=qs(snap=4, asof=2, slread=1), obs=25, mor=(True,), keys=6, focus="wide,ord"),
        Gen(120, mix=mix(upsert=8, insert=1, drop=0, overwrite=0, cluster=0), qs=qs(snap=4, asof=2), obs=25, mor=(True,), keys=3, focus="fat,ord")]),
    "C07": TableCheck(["mor_rb", "mor_rb8"], ["deep_rb", "deep_mor"], [
        Gen(360, mix=mix(upsert=7, rollback=5, step=12, drop=0, overwrite=0, insert=1, cluster=0), qs=qs(snap=2, asof=4, incr=2, slread=1, islread=1), obs=25, battery=20, mor=(True,))]),
    "C08": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(360, mix=mix(insert=4), qs=qs(snap=2, asof=2, slices=2, splits=1, slread=1), obs=20, battery=30, dims=(1, 2), steps=40, focus="part,absent")], parts=[PRUNE]),
    "C09": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(320, mix=mix(insert=6), qs=qs(splits=6, slices=1), obs=15, battery=30, steps=50)]),
    "C10": TableCheck(["two_parts", "mor_rb"], ["deep_all"], [
        Gen(320, qs=qs(slices=4, slread=4, splits=1, islread=1), obs=20, battery=20, focus="extras,part")]),
    "C11": TableCheck(["mor_rb", "cow_repl"], ["deep_all", "deep_mor"], [
        Gen(320, mix=mix(upsert=5), qs=qs(snap=3, asof=3, slread=1), obs=25, battery=24),
        Gen(120, mix=mix(upsert=6, drop=0), qs=qs(snap=3, asof=3, slread=2), obs=20, battery=24, steps=40, mor=(True,), maxh=1, focus="badlogs")]),
    "C12": TableCheck(["mor_handle", "cow_all"], ["deep_mor", "deep_all", "deep_cow"], [
        Gen(360, mix=mix(open=3), qs=qs(snap=2, asof=2, incr=1, slices=1, splits=1, slread=1, ibetween=1), obs=40, maxh=3)]),
    "C13": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(60, mix=mix(insert=4, archive=0), qs=qs(par=1), obs=8, battery=8, steps=40, dims=(0, 1, 1, 2), maxh=1, focus="part", args=["--s3", "3", "--hang", "40"]),
        Gen(140, mix=mix(insert=4, archive=0), qs=qs(par=1), obs=12, battery=12, steps=40, dims=(0, 1, 1, 2), maxh=1, focus="part,wide", args=["--hang", "40"])],
        parts=[READER]),
    "C14": TableCheck(["mor_handle"], ["deep_all"], [
        Gen(320, mix=mix(archive=3, rollback=3, empty=2), qs=qs(tl=8, snap=1), obs=30, focus="ts,tz,extras"),
        Gen(40, mix=mix(archive=3, rollback=3, empty=2), qs=qs(tl=8, snap=1, asof=1), obs=30, focus="ts,dst")]),
    "C15": CasesCheck([CONFIG, SESSION]),
    "C16": CasesCheck([VALID]),
    "C17": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(60, mix=mix(insert=4, drop=0), qs=qs(sql=1), obs=15, battery=24, steps=40, dims=(1, 2), focus="part,loc"),
        Gen(30, qs=qs(sql=1), obs=10, battery=16, steps=40, dims=(0, 1, 2), focus="wide,fat"),
        Gen(24, mix=mix(insert=3), qs=qs(sql=1), obs=10, battery=12, steps=30, dims=(0, 1, 2), focus="loc,part", args=["--s3", "3", "--hang", "60"]),
        ], crate="harness-df", parts=[PRUNESQL]),
    "C18": LogCheck(),
    "C19": CasesCheck([NAMES, NAMES2, ARGS, ARGS2]),
    "C20": TableCheck(["mor_handle"], ["deep_all"], [
        Gen(320, mix=mix(empty=4, drop=3, archive=2), qs=qs(schema=6, snap=1), obs=30, focus="evolve,wide,part"),
        Gen(100, mix=mix(empty=3, drop=2), qs=qs(schema=6, snap=1), obs=30, mor=(True,), focus="evolve,wide", maxh=1)]),
    "C21": TableCheck(["mor_rb"], ["deep_mor"], [
        Gen(160, mix=mix(upsert=8, insert=2, drop=0), qs=qs(snap=3, asof=1, slread=1, incr=1), obs=20, battery=8, mor=(True,), focus="types,evolve"),
        Gen(80, mix=mix(upsert=6, insert=2, drop=0), qs=qs(snap=3, asof=1, slread=1, incr=1), obs=20, battery=8, mor=(True,), focus="wide,fat,evolve"),
        Gen(60, mix=mix(upsert=6, insert=3, drop=0), qs=qs(snap=4, asof=1, slread=1, incr=1), obs=20, battery=8, mor=(True,), focus="types,refused")],
        parts=[LAYOUT]),
    "C22": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(320, mix=mix(insert=3), qs=qs(snap=3, slices=2, asof=1, incr=1, slread=1), obs=20, dims=(0, 1, 2), focus="loc,part,extras"),
        Gen(120, mix=mix(insert=3), qs=qs(snap=3, slices=2, asof=1, incr=1, slread=1), obs=20, dims=(0, 1, 2), focus="loc,part,extras", args=["--s3", "3"]),
        Gen(80, mix=mix(insert=3), qs=qs(snap=3, slices=2, asof=1, incr=1, slread=1), obs=20, dims=(1,), filters=False, focus="nest,extras")]),
    "C23": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(140, mix=mix(insert=3, open=2), obs=20, battery=16, steps=40, maxh=2, focus="part,ts,extras", args=PY),
        Gen(100, mix=mix(insert=3, open=2, upsert=4), obs=20, battery=16, steps=40, maxh=2, focus="wide,ord,evolve", args=PY),
        Gen(60, mix=mix(insert=3), obs=20, battery=20, steps=40, dims=(1, 2), focus="loc,part,tz", args=PY)],
        parts=[PYSESSION, PYCONFIG], also=["harness-py"]),
    "C24": TableCheck(["two_parts"], ["deep_cow"], [
        Gen(70, mix=mix(insert=3), qs=qs(snap=2, asof=2, incr=2, slices=1, splits=1, ibetween=1, slread=1, islread=1, schema=1, tl=1), obs=15, steps=40, maxh=1,
            focus="part", args=["--s3", "3", "--faults", "6"]),
        Gen(24, mix=mix(insert=3), qs=qs(sql=1), obs=8, battery=6, steps=30, dims=(0, 1, 2), focus="part", args=["--s3", "3", "--faults", "3", "--hang", "60"], crate="harness-df")],
        parts=[READER], also=["harness-df"]),
}
