#!/usr/bin/env python3
"""Runs one property check:  run.py C01 [--tier quick|thorough] [--replay FILE]

Builds what the check needs from /repo's current working tree in a private scratch
directory, explores, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored (known findings aside); 1: violation; 2: error.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, concurrent.futures as cf, signal, resource
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/vp/venv/bin/python"
PYINC = ["-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include", "-I/usr/include/python3.12"]
RINC = ["-I/usr/share/R/include", "-I/usr/lib/R/site-library/cpp11/include", "-DSTOCHTREE_R_BUILD", "-DR_BUILD"]
CORE = ["container", "cutpoint_candidates", "data", "io", "leaf_model", "partition_tracker", "random_effects", "tree"]
RGLUE = ["R_data", "R_random_effects", "cpp11", "forest", "kernel", "sampler", "serialization"]
INC = ["-I" + REPO + "/include", "-I" + V + "/stub", "-I/usr/include/eigen3", "-I" + V + "/lib"]
CACHE = os.environ.get("VF_CACHE")

class BuildError(Exception): pass

def tree_hash(harness):
    h = hashlib.sha256()
    for d in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(os.listdir(os.path.join(V, "lib"))):
        if f == "shim.hpp" or (harness and f.endswith(".hpp")): h.update(open(os.path.join(V, "lib", f), "rb").read())
    return h

def cc(src, obj, flags):
    cmd = ["g++", "-std=c++17", "-w", "-pipe"] + flags + INC + ["-c", src, "-o", obj]
    key = None
    if CACHE:
        h = tree_hash('/checks/' in src); h.update(" ".join(cmd[:-1]).encode()); h.update(open(src, "rb").read())
        key = os.path.join(CACHE, h.hexdigest() + ".o")
        if os.path.exists(key): shutil.copy(key, obj); return
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    if key: os.makedirs(CACHE, exist_ok=True); shutil.copy(obj, key + ".tmp%d" % os.getpid()); os.rename(key + ".tmp%d" % os.getpid(), key)

def compile_all(jobs):
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(cc, *j) for j in jobs]: f.result()

def build_cpp(harness, work, shim=False, flags=("-O1", "-D_GLIBCXX_ASSERTIONS"), core=CORE):
    flags = list(flags) + (["-include", V + "/lib/shim.hpp"] if shim else [])
    jobs = [(os.path.join(V, "checks", harness), work + "/harness.o", flags)]
    for c in sorted(core):
        jobs.append((os.path.join(REPO, "src", c + ".cpp"), "%s/%s.o" % (work, c), flags))
    # any further core source file a change may have added
    known = set(CORE) | set(RGLUE) | {"py_stochtree"}
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cpp") and f[:-4] not in known:
            jobs.append((os.path.join(REPO, "src", f), "%s/x_%s.o" % (work, f[:-4]), flags))
    compile_all(jobs)
    exe = work + "/check"
    r = subprocess.run(["g++", "-o", exe] + [j[1] for j in jobs] + ["-lpthread"] + [f for f in flags if f.startswith("-fsan")], capture_output=True, text=True)
    if r.returncode: raise BuildError("link failed:\n" + r.stderr[-4000:])
    return exe

def build_py(work, flags=("-O1",)):
    flags = list(flags) + ["-fPIC", "-fvisibility=hidden", "-DVERSION_INFO=\"1\""] + PYINC
    jobs = [(os.path.join(REPO, "src", c + ".cpp"), "%s/%s.o" % (work, c), flags) for c in CORE + ["py_stochtree"]]
    known = set(CORE) | set(RGLUE) | {"py_stochtree"}
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cpp") and f[:-4] not in known: jobs.append((os.path.join(REPO, "src", f), "%s/x_%s.o" % (work, f[:-4]), flags))
    compile_all(jobs)
    so = work + "/stochtree_cpp.so"
    r = subprocess.run(["g++", "-shared", "-o", so] + [j[1] for j in jobs], capture_output=True, text=True)
    if r.returncode: raise BuildError("link failed:\n" + r.stderr[-4000:])
    return so

def build_r(work, flags=("-O1",)):
    flags = list(flags) + ["-fPIC"] + RINC
    jobs = [(os.path.join(REPO, "src", c + ".cpp"), "%s/%s.o" % (work, c), flags) for c in CORE + RGLUE]
    known = set(CORE) | set(RGLUE) | {"py_stochtree"}
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cpp") and f[:-4] not in known: jobs.append((os.path.join(REPO, "src", f), "%s/x_%s.o" % (work, f[:-4]), flags))
    compile_all(jobs)
    so = work + "/stochtree.so"
    r = subprocess.run(["g++", "-shared", "-o", so] + [j[1] for j in jobs] + ["-L/usr/lib/R/lib", "-lR"], capture_output=True, text=True)
    if r.returncode: raise BuildError("link failed:\n" + r.stderr[-4000:])
    return so

def build_ref(src, work, r=False, flags=("-O1",)):
    """a reference driver over the C++ core alone, as a shared library with nothing but its entry points visible"""
    flags = list(flags) + ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique"] + (["-DVF_R", "-DR_NO_REMAP"] + RINC[:1] if r else [])
    jobs = [(os.path.join(V, "checks", src), work + "/ref.o", flags)]; known = set(RGLUE) | {"py_stochtree"}
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cpp") and f[:-4] not in known: jobs.append((os.path.join(REPO, "src", f), "%s/ref_%s.o" % (work, f[:-4]), flags))
    compile_all(jobs); so = work + "/vfref.so"
    p = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", so] + [j[1] for j in jobs] + (["-L/usr/lib/R/lib", "-lR"] if r else []), capture_output=True, text=True)
    if p.returncode: raise BuildError("link failed:\n" + p.stderr[-4000:])
    return so

def show_stderr(f):
    """the library logs every failed CHECK; keep only what else was said, and not too much of it"""
    with open(f, "rb") as fh:
        fh.seek(max(0, os.path.getsize(f) - 2000000)); t = fh.read().decode("utf8", "replace"); t = t[t.find("\n") + 1:] if len(t) >= 1999999 else t
    l = [x for x in t.splitlines() if x.strip() and not x.startswith("[StochTree]")]
    if l: print("\n".join(l[-40:]), file=sys.stderr)

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def finish(pid, tier, t0, spec, res):
    """res: dict(runs, transitions, states, outcomes, complete, samples, violations=[{key,msg,...}], counters, scenarios)"""
    kf = {f["key"]: f for f in known_findings() if f["property"] == pid and f.get("status") == "known"}
    viol = [v for v in res["violations"] if v["key"] not in kf]
    known = [v for v in res["violations"] if v["key"] in kf]
    cov = {"states": int(res["states"]), "transitions": int(res["transitions"]), "traces_validated_against_impl": int(res["runs"]),
           "distinct_outcomes": int(res.get("outcomes", 0)), "pruned_revisits": int(res.get("pruned", 0)), "exhaustive": bool(res["complete"]),
           "bounds": spec.get("bounds", ""), "counters": res.get("counters", {}), "scenarios": res.get("scenarios", {}),
           "samples": res["samples"] or ["(none)"],
           "conformance": "the explored transition system is the compiled code itself; every trace is an execution of it, compared step by step with an independent reference model"}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "known_findings_seen": sorted(v["key"] for v in known)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(V, "evidence", pid + ".json"))
    print("%s %s: runs=%d states=%d transitions=%d outcomes=%d complete=%s wall=%.1fs" % (pid, tier, res["runs"], res["states"], res["transitions"], res.get("outcomes", 0), res["complete"], time.time() - t0))
    for k, n in sorted(res.get("scenarios", {}).items()): print("   ", k, n)
    for v in known: print("KNOWN-FINDING: property=%s %s (%s)" % (pid, v["key"], kf[v["key"]]["what"]))
    if viol:
        d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        for i, v in enumerate(viol[:20]):
            base = os.path.join(d, "%s-%d" % (pid, i))
            if "choices" in v:
                open(base + ".case", "w").write("%s\n%d %d %s\n" % (v["scenario"], 1 if tier == "thorough" else 0, len(v["choices"]), " ".join(map(str, v["choices"]))))
                path = base + ".case"
            else:
                path = base + ".json"
            json.dump(v, open(base + ".json", "w"), indent=1)
            print("  key=%s count=%s: %s" % (v["key"], v.get("count", 1), v["msg"]))
            for l in v.get("trace", [])[:40]: print("      ", l)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    # vacuity: a check that explored nothing decides nothing
    if res["runs"] < spec.get("min_runs", 1) or res["states"] < spec.get("min_states", 1):
        print("ERROR: exploration was vacuous (runs=%d states=%d)" % (res["runs"], res["states"])); return 2
    return 0

def main():
    sys.path.insert(0, os.path.join(V, "lib"))
    from specs import SPECS
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--replay" in a: replay = os.path.abspath(a[a.index("--replay") + 1])
    extra = a[a.index("--") + 1:] if "--" in a else []
    spec = SPECS[pid]; t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    limit = spec.get("limit", {}).get(tier, 500 if tier == "quick" else 780)
    try:
        res = None
        for part in spec["parts"]:
            kind = part["kind"]; w = os.path.join(work, part["name"]); os.makedirs(w)
            if kind == "cpp":
                exe = build_cpp(part["src"], w, shim=part.get("shim", False), flags=part.get("flags", ("-O1", "-D_GLIBCXX_ASSERTIONS")))
                if replay:
                    if open(replay).readline().strip().split(":")[0] != part["name"] and len(spec["parts"]) > 1 : pass
                    r = subprocess.run([exe, "--replay", replay] + part.get("args", [])); 
                    if r.returncode != 2: return r.returncode
                    continue
                cmd = [exe, "--out", w + "/res.json", "--workers", "8", "--limit", str(limit)] + (["--thorough"] if tier == "thorough" and not part.get("quick_only") else []) + part.get("args", []) + extra
                env = dict(os.environ)
            elif kind == "py":
                if part.get("ext", True): build_py(w)
                env = dict(os.environ, PYTHONPATH="%s:%s:%s" % (w, REPO, os.path.join(V, "lib")), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VF_REPO=REPO)
                if part.get("ref"): env["VF_REF"] = build_ref(part["ref"], w)
                cmd = [PY, os.path.join(V, "checks", part["src"]), "--out", w + "/res.json", "--workers", "8", "--limit", str(limit)] + (["--thorough"] if tier == "thorough" else []) + (["--replay", replay] if replay else []) + extra
                if replay: return subprocess.run(cmd, env=env).returncode
            elif kind == "R":
                if part.get("ext", True): build_r(w)
                env = dict(os.environ, VF_SO=w + "/stochtree.so", VF_REPO=REPO, VF_OUT=w + "/res.json", VF_TIER=tier, VF_LIMIT=str(limit), VF_V=V, VF_REPLAY=replay or "", VF_EXTRA=" ".join(extra))
                if part.get("ref"): env["VF_REF"] = build_ref(part["ref"], w, r=True)
                cmd = ["Rscript", "--vanilla", os.path.join(V, "checks", part["src"])]
                if replay: return subprocess.run(cmd, env=env).returncode
            with open(w + "/stderr", "wb") as err: p = subprocess.run(cmd, env=env, cwd=w, stderr=err)
            show_stderr(w + "/stderr")
            if not os.path.exists(w + "/res.json"):
                print("ERROR: %s ended with %s and wrote no result" % (part["name"], p.returncode)); return 2
            r = json.load(open(w + "/res.json"))
            if len(spec["parts"]) > 1:
                for k in ("counters", "scenarios"): r[k] = {part["name"] + ":" + a: b for a, b in r.get(k, {}).items()}
            if res is None: res = r; res["samples"] = res["samples"][:4]
            else:
                for k in ("runs", "transitions", "states", "outcomes", "pruned"): res[k] = res.get(k, 0) + r.get(k, 0)
                res["complete"] = res["complete"] and r["complete"]
                res["samples"] += r["samples"][:4]; res["violations"] += r["violations"]
                for k in ("counters", "scenarios"): res.setdefault(k, {}).update(r.get(k, {}))
            if os.environ.get("VF_FAILFAST") and any(v["key"] not in {f["key"] for f in known_findings() if f["property"] == pid and f.get("status") == "known"} for v in r["violations"]): break  # development aid
        if replay: print("replay: scenario not found in any part"); return 2
        return finish(pid, tier, t0, spec, res)
    except BuildError as e:
        print("ERROR: build: %s" % e); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
