#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of /verif/properties.jsonl.  Exit 0: held on everything
explored; exit 1 with a line VIOLATION property=<id> replay=<path>: broken;
exit 2: the machinery failed."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *
import props


def known(pid):
    """Known findings of a property: {key: text} (see KNOWN_FINDINGS)."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                key, _, text = l[len("finding: property=%s " % pid):].strip().partition(" ")
                out[key] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    work = Work("%s-%s" % (a.property, a.tier))
    try:
        check = props.CHECKS[a.property]
        if a.replay:
            viol, cov = check.replay(work, json.load(open(a.replay))), None
        else:
            viol, cov = check.run(work, a.tier, a.seed)
    except ToolError as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            work.close()
    kn = known(a.property)
    fresh = [v for v in viol if v.get("key") not in kn]
    for k in sorted({v["key"] for v in viol if v.get("key") in kn}):
        print("KNOWN-FINDING: property=%s %s" % (a.property, kn[k]))
    if cov is not None:
        ev = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": check.level, "coverage": cov,
              "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    if not fresh:
        print("OK property=%s tier=%s %.0fs" % (a.property, a.tier, time.time() - t0))
        return 0
    rd = os.path.join(VERIF, "work", "replay")
    os.makedirs(rd, exist_ok=True)
    for i, v in enumerate(fresh[:5]):
        p = os.path.join(rd, "%s-%d.json" % (a.property, i))
        with open(p, "w") as f:
            json.dump(v, f, ensure_ascii=False)
        print("  %s" % str(v.get("problem"))[:600])
        print("VIOLATION property=%s replay=%s" % (a.property, p))
    return 1


if __name__ == "__main__":
    sys.exit(main())
