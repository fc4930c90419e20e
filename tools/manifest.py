"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} --quick",
            "thorough_cmd": f"python3 tools/check.py {i} --thorough",
            "technique": c.get("technique", "Verus contracts on the mechanically extracted real functions (all obligations re-discharged on every run), with a bounded executable oracle for counterexamples"),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: functions are extracted mechanically on every run."}, open(V + "/MANIFEST.json", "w"), indent=1)
