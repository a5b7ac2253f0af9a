"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.check import CHECKS
from sa.about import ABOUT, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NOT_APPLICABLE:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
    elif pid in CHECKS:
        tech, note = ABOUT[pid]
        checks.append({"property": pid, "quick_cmd": "python3 -B -m sa.check %s" % pid,
                       "thorough_cmd": "python3 -B -m sa.check %s --tier thorough" % pid,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": pid, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 -B -c 'import sa.check'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo/src and never run it. Known findings and fixed defects: known_findings.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
