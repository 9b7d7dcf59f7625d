# C23: the Python interface to the sampling loop is faithful.  Every bounded history of calls on Dataset, Residual, RNG, ForestSampler,
# ForestContainer, GlobalVarianceModel and LeafVarianceModel gives the forests, predictions and variance draws that the same history gives
# on the C++ core (checks/c23ref.cpp, built from the same sources without the bindings).
import os, json, ctypes, numpy as np, vfpy as vf
from stochtree import Dataset, Residual, RNG, ForestSampler, ForestContainer, GlobalVarianceModel, LeafVarianceModel, JSONSerializer
_L = ctypes.CDLL(os.environ["VF_REF"], mode=ctypes.RTLD_LOCAL); _L.vf_ref.restype = ctypes.c_char_p; _L.vf_ref.argtypes = [ctypes.c_char_p]
N = 9
COV = np.array([[-1.5, 0, 3], [0.25, 1, 0], [2.0, 2, 1], [-0.5, 1, 2], [3.25, 0, 3], [0.75, 2, 0], [1.5, 1, 1], [-2.25, 0, 2], [0.0, 2, 0]])
BAS = np.array([[1, -1, .5], [.5, 2, 1], [0, 1, -2], [-2, .25, 1], [1, 1, .75], [2, .5, -1], [-1, 1.5, 0], [.25, -.5, 2], [1.25, 0, 1]])
CY = lambda q: [v - np.mean(q) for v in q]
Y = np.array([-1, 2.1, .5, -2.3, 1.5, .47, 3.2, -.6, .9]); W = np.array([1, 2, .5, 1, 1.5, 1, .25, 3, 1])
SC = {1: [np.array([[.7]]), np.array([[3.5]])], 3: [np.array([[.7, .2, -.1], [.2, 1.1, .3], [-.1, .3, .9]]), np.array([[2., -1.2, 0], [-1.2, 1.5, .4], [0, .4, .6]])]}
TYPES = [[0, 1, 2], [0, 0, 2], [0, 2, 0], [0, 0, 0]]; VW = [[1 / 3] * 3, [.1, .7, .2], [0., .5, .5]]; PRIOR = [(.95, 2., 1), (.99, .4, 1), (.9, .5, 3)]
def arr(a, form, dtype=None):
    a = np.array(a, dtype=dtype)
    if form == 0: return a
    if a.ndim == 2: return np.asfortranarray(a)
    b = np.zeros(2 * a.size, dtype=a.dtype); b[::2] = a; return b[::2]
def forest(k, types, weights, trees, prior, cov=None): d = 3 if k == 2 else 1; return dict(k=k, dim=d, cov=(COV if cov is None else cov).tolist(), basis=BAS[:, :d].tolist() if k else None, weights=W.tolist() if weights else None, types=types, trees=trees, alpha=prior[0], beta=prior[1], min=prior[2])
class Py:
    def __init__(self, q, form=0):
        self.form = form; self.res = Residual(arr(q["y"], form)); self.rng = RNG(q["seed"]); self.f = []; self.draws = []
        for c in q["forests"]:
            d = Dataset(); d.add_covariates(arr(c["cov"], form))
            if c["basis"] is not None: d.add_basis(arr(c["basis"], form))
            if c["weights"] is not None: d.add_variance_weights(arr(c["weights"], form))
            t = arr(c["types"], form, int); self.f.append((c, d, ForestSampler(d, t, c["trees"], len(q["y"]), c["alpha"], c["beta"], c["min"]), ForestContainer(c["trees"], c["dim"], c["k"] == 0), t))
        self.gv = GlobalVarianceModel(); self.lv = LeafVarianceModel()
    def do(self, o):
        c, d, fs, fc, t = self.f[o.get("f", 0)]; op = o["op"]
        if op in "MG": fs.sample_one_iteration(fc, d, self.res, self.rng, t, o["grid"], arr(o["scale"], self.form), arr(o["vw"], self.form), o["s2"], c["k"], op == "G", o["pre"])
        elif op == "V": self.draws.append(self.gv.sample_one_iteration(self.res, self.rng, o["nu"], o["lam"]))
        elif op == "L": self.draws.append(self.lv.sample_one_iteration(fc, self.rng, o["a"], o["b"], o["i"]))
        elif op == "U": fs.update_residual(d, self.res, fc, o["basis"], o["i"], o["add"])
        elif op == "S": fc.set_root_leaves(0, o["v"][0] if len(o["v"]) == 1 else np.array(o["v"]))
        elif op == "B": d.update_basis(arr(o["b"], self.form))
        self.draws.append(GlobalVarianceModel().sample_one_iteration(self.res, RNG(3), 1.5, 0.7)); vf.transition()
def differs(a, b, path=""):
    if isinstance(a, dict): return "%s keys" % path if not isinstance(b, dict) or set(a) != set(b) else next((r for r in (differs(a[k], b[k], path + "/" + str(k)) for k in a) if r), None)
    if isinstance(a, list): return "%s length" % path if not isinstance(b, list) or len(a) != len(b) else next((r for r in (differs(x, y, "%s[%d]" % (path, i)) for i, (x, y) in enumerate(zip(a, b))) if r), None)
    if isinstance(a, (int, float)) and not isinstance(a, bool): return None if isinstance(b, (int, float)) and (a == b or abs(a - b) <= 1e-9 * (1 + abs(b)) and isinstance(a, float)) else "%s: %.12g, core %.12g" % (path, a, b)
    return None if a == b else "%s: %r, core %r" % (path, a, b)
def compare(q, form=0):
    r = json.loads(_L.vf_ref(json.dumps(q).encode()).decode()); P = Py(q, form); err = None
    try:
        for o in q["ops"]: P.do(o)
    except Exception as e: err = str(e)
    vf.check(("error" in r) == (err is not None), "refusal", lambda: "core: %s; Python: %s" % (r.get("error", "accepts"), err or "accepts"))
    if err is not None: vf.count("refused-by-both"); return
    what = lambda: "history %s on %s" % (" ".join("%s%s" % (o["op"], o.get("f", "")) for o in q["ops"]), "; ".join("leaf model %d, types %s, %d trees" % (f["k"], f["types"], f["trees"]) for f in q["forests"]))
    x = differs(list(map(float, P.draws)), r["draws"]); vf.check(x is None, "draws", lambda: "variance draws%s differ from the core's: %s" % (x, what()))
    want = [json.loads(l) for l in r["forests"].splitlines() if l]
    for i, (c, d, fs, fc, t) in enumerate(P.f):
        js = JSONSerializer(); js.add_forest(fc); got = json.loads(js.json_cpp.DumpJson())["forests"]["forest_0"]; y = differs(got, want[i]); vf.check(y is None, "forest", lambda: "forest %d differs from the core's at %s: %s" % (i, y, what()))
        S = fc.forest_container_cpp.NumSamples()
        if S:
            n = len(q["y"]); p = np.array(r["preds"][i]).reshape(S, n).T; vf.check(np.allclose(fc.predict(d), p, rtol=1e-9, atol=1e-9), "predictions", lambda: "forest %d predicts %s, core %s: %s" % (i, fc.predict(d), p, what()))
            w = np.array(r["raw"][i]).reshape(S, n, c["dim"]).transpose(1, 0, 2); g = fc.predict_raw(d); vf.check(np.allclose(g.reshape(w.shape), w, rtol=1e-9, atol=1e-9), "raw-predictions", lambda: "forest %d raw predictions %s, core %s: %s" % (i, g, w, what()))
    vf.state(json.dumps(q), form); vf.outcome(r["draws"][-1], r["forests"])
def samp(op, k, scale=0, vw=0, grid=100, s2=.8, pre=False, f=0): return dict(op=op, f=f, scale=SC[3 if k == 2 else 1][scale].tolist(), vw=VW[vw], grid=grid, s2=s2, pre=pre)
def arguments():
    k = vf.choose(3); types = vf.choose(TYPES); w = vf.choose(2); trees = vf.choose([1, 3]); prior = vf.choose(PRIOR); sc = vf.choose(2); vw = vf.choose(3); grid = vf.choose([2, 100]); s2 = vf.choose([.8, 4.]); ops = vf.choose(["GM", "MMM", "GG", "MG"] if vf.thorough() else ["GM", "MG"]); form = vf.choose(2) if vf.thorough() else (sc + vw + k) % 2
    compare(dict(y=CY(Y) if k == 2 else Y.tolist(), seed=70007 + sc, forests=[forest(k, types, w, trees, prior)], ops=[samp(o, k, sc, vw, grid, s2) for o in ops]), form)
BASE = [(0, 0, 0, 2, 0), (1, 0, 1, 2, 1), (2, 1, 1, 2, 1), (0, 3, 1, 1, 1), (2, 0, 0, 3, 0), (1, 2, 0, 1, 2)]
def step(q, k, o, j, pre, S, f=0):
    """appends operation o to the history if it is meaningful there; S is the number of stored samples, returned"""
    d = 3 if k == 2 else 1
    if o in "MG": q["ops"].append(samp(o, k, j % 2, j % 3, [3, 100][j % 2], [.8, 2.][j % 2], pre, f)); return 1 if S[1] and S[0] == 1 and not S[2] else S[0] + 1
    if o == "V": q["ops"].append(dict(op="V", nu=[3., .5][j % 2], lam=[.7, 2.][j % 2]))
    elif o == "L" and k < 2 and S[0]: q["ops"].append(dict(op="L", f=f, a=[3., .5][j % 2], b=[.4, 2.][j % 2], i=j % S[0]))
    elif o in "+-" and S[0]: q["ops"].append(dict(op="U", f=f, i=S[0] - 1, basis=k > 0, add=o == "+"))
    elif o == "B" and k: q["ops"].append(dict(op="B", f=f, b=(BAS[::-1, :d] * (1 + j)).tolist()))
    return S[0]
def root(k, f=0): d = 3 if k == 2 else 1; return [dict(op="S", f=f, v=[.3, -.2, .5][:d]), dict(op="U", f=f, i=0, basis=k > 0, add=True)]
def histories():
    k, ty, w, trees, pr = vf.choose(BASE); start = vf.choose(2); q = dict(y=CY(Y) if k == 2 else Y.tolist(), seed=2147483000, forests=[forest(k, TYPES[ty], w, trees, PRIOR[pr])], ops=[]); S = [0, start, 0]
    if start: q["ops"] += root(k); S[0] = 1
    L = "MGV+-B" if k == 2 else "MGVL+-" if k == 0 else "MGVL+-B"
    for j in range(5 if vf.thorough() else 4):
        o = L[vf.choose(len(L))]; S[0] = step(q, k, o, j, bool(start), S); S[2] += o in "MG"
    if S[2] == 0 or q["ops"][-1]["op"] not in "MG": q["ops"].append(samp("M", k, 1, 1, 100, 1., bool(start)))
    compare(q, 0)
def two_forests(): # the loop of a two-forest model: both forests against one residual and one generator
    k1 = 0; k2 = vf.choose([1, 2, 0]); start = 1 if k2 == 2 else vf.choose(2); ty = vf.choose([0, 3]); q = dict(y=CY(Y) if k2 == 2 else Y.tolist(), seed=5, forests=[forest(k1, TYPES[ty], 0, 2, PRIOR[0]), forest(k2, TYPES[1], 1, 3, PRIOR[1], COV[::-1])], ops=[]); S = [[0, start, 0], [0, start, 0]]
    if start: q["ops"] += root(k1, 0) + root(k2, 1); S[0][0] = S[1][0] = 1
    for j in range(4 if vf.thorough() else 3):
        f = vf.choose(2); k = (k1, k2)[f]; o = "MGL-VB"[vf.choose(6 if f else 5)]; S[f][0] = step(q, k, o, j, bool(start), S[f], f); S[f][2] += o in "MG"
    for f in (0, 1): q["ops"].append(samp("M", (k1, k2)[f], 0, 1, 100, 1., bool(start), f))
    compare(q, 0)
vf.main([("python-arguments", arguments), ("python-histories", histories), ("python-two-forests", two_forests)])
