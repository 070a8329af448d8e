"""Makes calls of the Python package for the harness: one JSON request per
line on standard input, one JSON answer per line on standard output; Arrow data
go to a file next to it."""
import ctypes, json, os, signal, sys, threading

ctypes.CDLL(None).prctl(1, signal.SIGKILL)
import pyarrow as pa
import hudi
import hudi._internal

OUT = os.fdopen(os.dup(1), "w", encoding="utf-8")
os.dup2(2, 1)
KEPT = {}


class Data:
    def __init__(self, path):
        self.f = open(path, "wb")
        self.n = 0

    def put(self, schema, batch=None):
        sink = pa.BufferOutputStream()
        with pa.ipc.new_stream(sink, schema) as w:
            if batch is not None:
                w.write_batch(batch)
        b = sink.getvalue().to_pybytes()
        self.f.write(b)
        self.n += len(b)
        return [self.n - len(b), len(b)]


def shown(v, data):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (list, tuple)):
        return [shown(x, data) for x in v]
    if isinstance(v, dict):
        return {"dict": {k: shown(x, data) for k, x in v.items()}}
    if isinstance(v, pa.RecordBatch):
        v.validate(full=True)
        return {"batch": data.put(v.schema, v)}
    if isinstance(v, pa.Schema):
        return {"schema": data.put(v)}
    if isinstance(v, hudi.HudiFileSlice):
        return {"slice": {k: getattr(v, k) for k in ("file_id", "partition_path", "creation_instant_time", "base_file_name", "base_file_size",
                                                     "base_file_byte_size", "log_file_names", "num_records")},
                "base": v.base_file_relative_path(), "logs": v.log_files_relative_paths()}
    if isinstance(v, hudi.HudiInstant):
        return {"instant": {k: getattr(v, k) for k in ("timestamp", "action", "state", "epoch_mills")}}
    return {"object": type(v).__name__}


def value(x):
    if isinstance(x, dict):
        if "ref" in x:
            v = KEPT[x["ref"]]
            for i in x.get("at", []):
                v = v[i]
            return v
        if "dict" in x:
            return dict(x["dict"])
        if "own" in x:  # a dictionary of the caller, the same object every time
            return KEPT.setdefault("own:" + x["own"], dict(x["init"]))
        if "tuples" in x:
            return [tuple(t) for t in x["tuples"]]
    return x


def target(on):
    if on is None:
        return hudi
    if on == "_internal":
        return hudi._internal
    if on == "KEPT":
        return KEPT
    return KEPT[on]


def call(r):
    f = target(r.get("on"))
    for n in r["name"].split("."):
        f = getattr(f, n)
    if r.get("get"):
        return f
    return f(*[value(x) for x in r["args"]], **{k: value(x) for k, x in r["kwargs"].items()})


def outcome(r):
    try:
        return True, call(r)
    except BaseException as e:  # PanicException is no Exception
        return False, {"err": str(e), "type": type(e).__name__}


def answer(r):
    if "env" in r:
        for k in r["unset"]:
            os.environ.pop(k, None)
        os.environ.update(r["env"])
        return {"ok": None}
    if "forget" in r:
        for k in [k for k in KEPT if k.startswith(r["forget"])]:
            del KEPT[k]
        return {"ok": None}
    data = Data(r["data"])
    if r.get("threads"):
        n = r["threads"]
        res, go = [None] * n, threading.Barrier(n)

        def one(i):
            go.wait()
            res[i] = outcome(r)

        ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        res = [outcome(r)]
    if r.get("keep") and res[0][0]:
        KEPT[r["keep"]] = res[0][1]
    out = [{"ok": shown(v, data)} if ok else v for ok, v in res]
    data.f.close()
    return {"all": out}


for line in sys.stdin:
    try:
        a = answer(json.loads(line))
    except BaseException as e:
        import traceback

        a = {"harness": traceback.format_exc()}
    OUT.write(json.dumps(a) + "\n")
    OUT.flush()
