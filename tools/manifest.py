"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS, NOT_APPLICABLE, NOTES
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="TLA+ specification, checked by TLC; traces recorded from the real code validated against it",
            level="model_checking", level_note=c.get("note") or ("The design (%s) is checked exhaustively within the constants of its cfg. The code is judged on the executions the driver records: every event must be a step the specification allows. Assumes: %s" % (", ".join(c["design"]), "; ".join(c.get("assumptions", []))))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
