# C14 through the Python interface. With a fixed seed two draws of equal shape use the same gamma value, so ratios of draws identify
# the posterior scale, and equality of normalised draws identifies the posterior shape.
import numpy as np, vfpy as vf
from stochtree import Dataset, Residual, RNG, ForestSampler, ForestContainer, GlobalVarianceModel, LeafVarianceModel
V = [-1.5, 0.0, 0.5, 2.0]
def gdraw(y, nu, lam, seed): return GlobalVarianceModel().sample_one_iteration(Residual(np.array(y, dtype=float)), RNG(seed), nu, lam)
def glob():
    n = 1 + vf.choose(5 if vf.thorough() else 4); y = [vf.choose(V) for _ in range(n)]; nu = vf.choose([3.0, 0.5, 8.0]); lam = vf.choose([0.7, 4.0]); seed = vf.choose([1, 77]); vf.transition()
    shape = nu + n / 2; scale = nu * lam + sum(v * v for v in y) / 2; v = gdraw(y, nu, lam, seed)
    # the same shape from another number of observations and prior, all-zero residuals: scale nu0 * lam0
    for m in (1, 2, 9):
        nu0 = shape - m / 2
        if nu0 <= 0: continue
        v0 = gdraw([0.0] * m, nu0, 1.25, seed); vf.check(np.isclose(v / scale, v0 / (nu0 * 1.25), rtol=1e-12, atol=0), "global-variance", lambda: "residuals %s nu %s lambda %s: draw %.15g is not scale %.15g / gamma(%g)" % (y, nu, lam, v, scale, shape))
    vf.check(v > 0 and np.isfinite(v), "positive", v); vf.state(y, nu, lam, seed); vf.outcome(v)
def leafv():
    T = vf.choose([1, 2, 3]); S = vf.choose([1, 2, 3]); seed = vf.choose([1, 2, 5]); model = vf.choose(2); a = vf.choose([3.0, 0.5]); b = vf.choose([0.2, 2.0]); gfr = vf.choose(2); rs = np.random.RandomState(seed); n = 12
    X = rs.uniform(size=(n, 2)); y = np.where(X[:, 0] > .5, 2., -2.) + rs.normal(size=n) * .1; B = rs.uniform(.5, 1, (n, 1)); d = Dataset(); d.add_covariates(X)
    if model: d.add_basis(B)
    r = Residual(y.copy()); rng = RNG(seed); ft = np.zeros(2, dtype=int); fs = ForestSampler(d, ft, T, n, .95, 1.0, 1); fc = ForestContainer(T, 1, model == 0)
    for s in range(S): fs.sample_one_iteration(fc, d, r, rng, ft, 10, np.array([[.5]]), np.ones(2) / 2, .05, model, bool(gfr) or s == 0, False); vf.transition()
    import json
    J = json.loads(fc.forest_container_cpp.DumpJsonString()) if hasattr(fc.forest_container_cpp, "DumpJsonString") else None
    if J is None:
        import os, tempfile
        f = tempfile.mktemp(suffix=".json"); fc.save_to_json_file(f); J = json.load(open(f)); os.unlink(f)
    for s in range(S):
        vals = [t["leaf_value"][i] for k, t in J["forest_%d" % s].items() if k.startswith("tree_") and isinstance(t, dict) for i in t["leaves"]]
        shape = a + len(vals) / 2; scale = b + sum(v * v for v in vals) / 2; v = LeafVarianceModel().sample_one_iteration(fc, RNG(9), a, b, s); v0 = gdraw([0.0], shape - .5, 1.0, 9)
        vf.check(np.isclose(v / scale, v0 / (shape - .5), rtol=1e-12, atol=0), "leaf-variance", lambda: "sample %d with %d leaves: draw %.15g is not scale %.15g / gamma(%g)" % (s, len(vals), v, scale, shape)); vf.state(T, S, seed, model, s, round(scale, 9)); vf.outcome(v)
vf.main([("python-global", glob), ("python-leaf-scale", leafv)])
