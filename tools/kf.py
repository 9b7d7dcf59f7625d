#!/usr/bin/env python3
# kf.py fixed|known PROPERTY KEY COMMIT|- WHAT   (development helper; checks never write the file)
import json, sys
import os; p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"); d = json.load(open(p)); st, prop, key, commit, what = sys.argv[1:6]
e = {"status": st, "property": prop, "key": key}
if st == "fixed": e["commit"] = commit; e["what"] = "fixed: property=%s %s %s" % (prop, commit, what)
else: e["what"] = what
d["findings"].append(e); json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
