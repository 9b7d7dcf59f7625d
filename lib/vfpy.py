"""Exhaustive exploration of choice trees for Python harnesses (same scheme as vf.hpp):
a scenario is a function whose every input, configuration and operation is a call to choose(n)."""
import sys, os, json, time, struct, traceback, multiprocessing as mp, hashlib, warnings
class Skip(Exception): pass
class Violation(Exception):
    def __init__(self, key, msg): self.key, self.msg = key, msg
class _C: pass
C = _C()
def _reset():
    C.path, C.arity, C.pos, C.prod, C.h, C.decided, C.trace = [], [], 0, 1.0, 0, True, []
_reset(); C.worker = 0; C.workers = 1; C.thorough = False; C.runs = C.transitions = 0; C.states = set(); C.outcomes = set(); C.counters = {}; C.verbose = False
def thorough(): return C.thorough
def _mix(h, v): return int.from_bytes(hashlib.blake2b(struct.pack("<QQ", h & (2**64 - 1), v & (2**64 - 1)), digest_size=8).digest(), "little")
def _decide():
    if C.decided: return
    C.decided = True
    if C.workers > 1 and C.h % C.workers != C.worker: raise Skip()
def choose(n):
    if isinstance(n, (list, tuple)): return n[choose(len(n))]
    assert n > 0
    if C.pos == len(C.path): C.path.append(0); C.arity.append(n)
    else:
        if C.pos >= len(C.arity): C.arity.append(n)
        C.arity[C.pos] = n
    v = C.path[C.pos]; C.pos += 1
    if v >= n: raise RuntimeError("replay divergence: choice out of range")
    if not C.decided:
        C.h = _mix(C.h, v + 1); C.prod *= n
        if C.prod >= 24 * C.workers: _decide()
    return v
def pick(*a): return a[choose(len(a))]
def transition(k=1): C.transitions += k
def state(*a): C.states.add(hash(repr(a)))
def outcome(*a): C.outcomes.add(hash(repr(a)))
def count(k, v=1): C.counters[k] = C.counters.get(k, 0) + v
def note(s): C.trace.append(str(s)[:500])
def fail(key, msg): raise Violation(key, str(msg)[:1500])
def check(c, key, msg):
    if not c: raise Violation(key, str(msg() if callable(msg) else msg)[:1500])
def _run(fn):
    C.pos = 0; C.decided = C.workers <= 1; C.prod = 1.0; C.h = 0; C.trace = []
    try:
        fn(); r = None
    except Skip: C.path = C.path[:C.pos]; C.arity = C.arity[:C.pos]; return "skip"
    except Violation as e: r = (e.key, e.msg)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2]); where = [f for f in tb if "/stochtree/" in f.filename] or tb
        key = "exception:%s" % type(e).__name__
        r = (key, "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(where[-1].filename), where[-1].lineno))
    C.path = C.path[:C.pos]; C.arity = C.arity[:C.pos]
    try: _decide()
    except Skip: return "skip"
    return r
def _advance():
    while C.path:
        if C.path[-1] + 1 < C.arity[len(C.path) - 1]: C.path[-1] += 1; C.arity = C.arity[:len(C.path)]; return True
        C.path.pop(); C.arity = C.arity[:len(C.path)]
    return False
def _worker(w, workers, scs, limit, thorough_, q):
    warnings.simplefilter("ignore"); C.worker = w; C.workers = workers; C.thorough = thorough_; t0 = time.time(); out = {"per": {}, "viol": {}, "samples": []}; complete = True
    cur = os.open("/tmp/vfpy_%d_%d" % (os.getppid(), w), os.O_CREAT | os.O_RDWR)
    for name, fn in scs:
        C.path, C.arity = [], []; runs = 0; tr0 = C.transitions; ok = True
        while True:
            os.pwrite(cur, (name + " " + repr(C.path)).ljust(400).encode()[:400], 0)
            r = _run(fn)
            if r != "skip":
                runs += 1
                if r is not None:
                    k = r[0]; limit = 0 if os.environ.get("VF_FAILFAST") else limit
                    if k in out["viol"]: out["viol"][k]["count"] += 1
                    else: out["viol"][k] = {"key": k, "msg": r[1], "count": 1, "scenario": name, "choices_py": list(C.path), "trace": list(C.trace)}
                elif len(out["samples"]) < 2 and runs % 7 == 3: out["samples"].append("%s: choices %s" % (name, C.path))
            if not _advance(): break
            if time.time() - t0 > limit: ok = complete = False; break
        out["per"][name] = {"runs": runs, "transitions": C.transitions - tr0, "complete": ok}
    out.update(states=list(C.states), outcomes=list(C.outcomes), counters=C.counters, transitions=C.transitions, complete=complete)
    q.put((w, out))
def main(scs):
    a = sys.argv[1:]
    def opt(n, d): return a[a.index(n) + 1] if n in a else d
    C.thorough = "--thorough" in a; warnings.simplefilter("ignore")
    if "--replay" in a:
        v = json.load(open(opt("--replay", ""))); fn = dict(scs)[v["scenario"]]; C.thorough = bool(v.get("thorough")); C.path = list(v["choices_py"]); C.arity = []; C.verbose = True; r = _run(fn)
        for t in C.trace: print(t)
        print("REPRODUCED key=%s %s" % r if r else "not reproduced"); sys.exit(1 if r else 0)
    only = opt("--only", None)
    if only: scs = [s for s in scs if s[0] == only]
    W = int(opt("--workers", "8")); limit = float(opt("--limit", "500")); ctx = mp.get_context("fork"); q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(w, W, scs, limit, C.thorough, q)) for w in range(W)]
    for p in ps: p.start()
    got = {}; died = []; last = time.time()
    import queue
    while len(got) + len(died) < W:
        try: w, o = q.get(timeout=1); got[w] = o
        except queue.Empty:
            for w, p in enumerate(ps):
                if w not in got and w not in died and not p.is_alive():
                    try:
                        while True: ww, o = q.get(timeout=0.5); got[ww] = o
                    except queue.Empty: pass
                    if w not in got: died.append(w)
    for p in ps: p.join()
    res = {"runs": 0, "transitions": 0, "states": set(), "outcomes": set(), "pruned": 0, "complete": not died, "counters": {}, "scenarios": {}, "samples": [], "violations": {}}
    for o in got.values():
        res["transitions"] += o["transitions"]; res["states"] |= set(o["states"]); res["outcomes"] |= set(o["outcomes"]); res["complete"] &= o["complete"]; res["samples"] += o["samples"]
        for k, v in o["counters"].items(): res["counters"][k] = res["counters"].get(k, 0) + v
        for k, v in o["per"].items():
            s = res["scenarios"].setdefault(k, {"runs": 0, "transitions": 0, "complete": True}); s["runs"] += v["runs"]; s["transitions"] += v["transitions"]; s["complete"] &= v["complete"]; res["runs"] += v["runs"]
        for k, v in o["viol"].items():
            if k in res["violations"]: res["violations"][k]["count"] += v["count"]
            else: v["thorough"] = C.thorough; res["violations"][k] = v
    for w in range(W):
        f = "/tmp/vfpy_%d_%d" % (os.getpid(), w)
        if w in died:
            try: cur = open(f).read().strip(); name, path = cur.split(" ", 1); path = json.loads(path)
            except Exception: name, path = scs[0][0], []
            res["violations"].setdefault("crash", {"key": "crash", "msg": "the process ended abnormally (exit code %s)" % ps[w].exitcode, "count": 1, "scenario": name, "choices_py": path, "trace": [], "thorough": C.thorough})
        try: os.unlink(f)
        except OSError: pass
    res["states"] = len(res["states"]); res["outcomes"] = len(res["outcomes"]); res["violations"] = list(res["violations"].values()); res["samples"] = res["samples"][:6]
    json.dump(res, open(opt("--out", "res.json"), "w"))
