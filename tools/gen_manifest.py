#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique=c["technique"], level="model_checking", level_note=c["note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check compiles its harness from /repo/src at check time; no hooks are needed in /repo (header-only library).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
