#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPECS or SPECS[i].get("disabled"):
        na.append({"property": i, "reason": SPECS.get(i, {}).get("disabled") or "check not built yet"}); continue
    s = SPECS[i]
    checks.append({"property": i, "quick_cmd": "python3 lib/run.py %s --tier quick" % i, "thorough_cmd": "python3 lib/run.py %s --tier thorough" % i,
                   "technique": s.get("technique", "explicit-state exploration of the compiled code: exhaustive enumeration of bounded choice trees (stateless DFS), compared with a reference model"),
                   "level": "model_checking",
                   "level_note": s.get("note") or ("Holds on every execution within the bounds: " + s.get("bounds", "") + ". Trusts the reference model in /verif, the compiler, and (where used) the controlled random-distribution shim.")})
m = {"version": 1, "setup_cmd": "python3 lib/selftest.py", "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks compile /repo's unmodified sources; controlled randomness is injected from outside with -include lib/shim.hpp.", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Known findings and fixed defects: known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
