#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need are there (nothing is prebuilt: each check builds from /repo itself) and that the
three explorers enumerate a known choice tree completely, once each, and report a planted violation, crash and hang."""
import json, shutil, subprocess, sys, os, tempfile
ok = True
for c in (["g++", "--version"], ["/opt/vp/venv/bin/python", "-c", "import numpy, pandas, scipy"], ["Rscript", "--vanilla", "-e", "library(R6)"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode: ok = False; print("missing:", c, r.stderr[-300:])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("lib/vf.hpp", "lib/shim.hpp", "lib/model.hpp", "stub/fast_double_parser.h"):
    if not os.path.exists(os.path.join(V, f)): ok = False; print("missing", f)
def expect(what, cond):
    global ok
    if not cond: ok = False; print("explorer self-test failed:", what)
def judge(kind, r):
    n = {k: v["runs"] for k, v in r["scenarios"].items()}; keys = {v["key"]: v for v in r["violations"]}
    expect(kind + " runs %s" % n, n.get("all") == 20 and n.get("violation") == 25)
    expect(kind + " states %s outcomes %s" % (r["states"], r["outcomes"]), r["states"] == 20 and r["outcomes"] == 7)
    expect(kind + " violations %s" % sorted(keys), sorted(keys) == ["planted"] and keys["planted"]["count"] == 1)
    expect(kind + " completeness", bool(r["complete"]))
def bad(kind, what, r): expect("%s %s" % (kind, what), len(r["violations"]) == 1 and r["violations"][0]["key"].startswith(what) and not r["complete"])
w = tempfile.mkdtemp(prefix="vf_selftest_")
try:
    o = w + "/o.json"; env = dict(os.environ, VF_V=V, VF_OUT=o, VF_EXTRA="", VF_REPLAY="", VF_TIER="quick", VF_LIMIT="60", PYTHONPATH=os.path.join(V, "lib"), PYTHONDONTWRITEBYTECODE="1")
    env.pop("VF_FAILFAST", None)
    subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-I", os.path.join(V, "lib"), os.path.join(V, "lib/selftest/toy.cpp"), "-o", w + "/toy"], check=True)
    def run(cmd): subprocess.run(cmd, env=env, cwd=w, capture_output=True); r = json.load(open(o)); os.unlink(o); return r
    C = [w + "/toy", "--out", o, "--workers", "4", "--hang", "4", "--only"]; P = ["/opt/vp/venv/bin/python", os.path.join(V, "lib/selftest/toy.py"), "--out", o, "--workers", "4", "--only"]
    for kind, cmd, sc in (("C++", C, ["all", "violation"]), ("Python", P, ["all", "violation"])):
        a, b = (run(cmd + [x]) for x in sc); a["scenarios"].update(b["scenarios"]); a["violations"] += b["violations"]; a["complete"] = a["complete"] and b["complete"]; judge(kind, a); bad(kind, "crash", run(cmd + ["crash"]))
    bad("C++", "hang", run(C + ["hang"])); judge("R", run(["Rscript", "--vanilla", os.path.join(V, "lib/selftest/toy.R")]))
except Exception as e: ok = False; print("explorer self-test failed:", repr(e))
finally: shutil.rmtree(w, ignore_errors=True)
print("setup ok" if ok else "setup failed"); sys.exit(0 if ok else 1)
