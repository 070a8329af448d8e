"""Writes MANIFEST.json from props.CHECKS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from common import VERIF
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {}
checks = [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
           "technique": props.CHECKS[i].technique, "level": props.CHECKS[i].level, "level_note": props.CHECKS[i].note} for i in ids if i in props.CHECKS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in props.CHECKS],
     "hooks": {"guard": "none", "enable": "No hooks: the public API exposes the abstract state.", "source_commits": []},
     "notes": "See DESIGN.md. Known findings and repairs: KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
