"""Record the structure of the functions under contract on the unchanged tree (specs/shapes.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from extract import Extractor
from props import PROPS
out = {}
for pid, c in PROPS.items():
    t = c.get("template")
    if not t:
        continue
    for tp in (t if isinstance(t, list) else [t]):
        x = Extractor(f"{V}/specs/{tp}.rs")
        x.run()
        out[tp] = {g["spec"]: {"shape": g["shape"], "calls": g["calls"]} for g in x.functions}
json.dump(out, open(V + "/specs/shapes.json", "w"), indent=1, sort_keys=True)
