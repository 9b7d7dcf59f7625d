# C15 (Python): every array layout and dtype handed to Dataset and Residual reads back, through forests and samplers, as the values supplied.
import json, os, tempfile, warnings, numpy as np, vfpy as vf
from stochtree import Dataset, Residual, RNG, ForestSampler, ForestContainer, GlobalVarianceModel
warnings.simplefilter("ignore")
# tree templates are taken from trees the library itself writes, then edited
def sample_json(fc):
    f = tempfile.mktemp(suffix=".json", prefix="vfc15_")
    try: fc.save_to_json_file(f); return json.load(open(f))
    finally: os.unlink(f)
def template(leafdim, split):
    X = np.array([[0.], [0.], [1.], [1.]]) * split; Y = np.array([-50., -50., 50., 50.]) * split; d = Dataset(); d.add_covariates(X); m = 0 if leafdim == 1 else 2
    if leafdim > 1: d.add_basis(np.ones((4, leafdim)) * np.arange(1., leafdim + 1))
    for seed in range(60):
        fc = ForestContainer(1, leafdim, leafdim == 1); fs = ForestSampler(d, np.zeros(1, dtype=int), 1, 4, .99 if split else 1e-9, .1, 1); fs.sample_one_iteration(fc, d, Residual(Y.copy()), RNG(seed), np.zeros(1, dtype=int), 5, np.eye(leafdim) * 100., np.ones(1), .01, m, True, False); J = sample_json(fc); t = J["forest_0"]["tree_0"]
        if (len(t["leaves"]) == 2) == split: return J, t
    raise RuntimeError("no template")
TPL = {(1, True): template(1, True)}
for k in (1, 2, 3): TPL[(k, False)] = template(k, False)
def load(leafdim, split, trees):
    J, _ = TPL[(leafdim, split)]; J = json.loads(json.dumps(J)); F = J.pop("forest_0"); J["num_samples"] = len(trees)
    for i, t in enumerate(trees): G = json.loads(json.dumps(F)); G["tree_0"] = t; J["forest_%d" % i] = G
    f = tempfile.mktemp(suffix=".json", prefix="vfc15_"); fc = ForestContainer(1, leafdim, leafdim == 1)
    try: open(f, "w").write(json.dumps(J)); fc.load_from_json_file(f)
    finally: os.unlink(f)
    return fc
def stump(col, thr):
    t = json.loads(json.dumps(TPL[(1, True)][1])); root = 0; L, R = t["left"][0], t["right"][0]; t["split_index"][0] = col; t["threshold"][0] = thr; t["leaf_value"][L] = 1.0; t["leaf_value"][R] = 0.0; return t
def read_covariates(d, n, X):
    """every entry compared with the supplied value by one stump exactly at the value and one just below it"""
    cells = [(i, j) for i in range(X.shape[0]) for j in range(X.shape[1])]; fc = load(1, True, [stump(j, float(X[i, j])) for i, j in cells] + [stump(j, float(np.nextafter(X[i, j], -np.inf))) for i, j in cells]); p = fc.predict(d)
    if p.shape != (n, 2 * len(cells)): return "predictions have shape %s" % (p.shape,)
    for k, (i, j) in enumerate(cells):
        for a in range(n):
            e = (float(X[a, j] <= X[i, j]), float(X[a, j] <= np.nextafter(X[i, j], -np.inf)))
            if (p[a, k], p[a, len(cells) + k]) != e: return "row %d column %d is not the supplied %r" % (a, j, X[a, j])
def read_basis(d, n, B):
    K = B.shape[1]; t0 = TPL[(K, False)][1]; trees = []
    for k in range(K):
        t = json.loads(json.dumps(t0))
        if K == 1: t["leaf_value"][0] = 1.0
        else: t["leaf_vector"] = [1.0 if q == k else 0.0 for q in range(K)]
        trees.append(t)
    J, _ = TPL[(K, False)]; fc = load(K, False, trees)
    if K == 1:  # a regression leaf of dimension one
        J2 = sample_json(fc)
        def conv(o):
            if isinstance(o, dict): return {a: (False if a == "is_leaf_constant" else conv(b)) for a, b in o.items()}
            return o
        J2 = conv(J2); f = tempfile.mktemp(suffix=".json", prefix="vfc15_")
        try: open(f, "w").write(json.dumps(J2)); fc = ForestContainer(1, 1, False); fc.load_from_json_file(f)
        finally: os.unlink(f)
    p = fc.predict(d)
    if p.shape != B.shape: return "predictions have shape %s" % (p.shape,)
    if not np.array_equal(p, B): return "basis reads %s" % p.tolist()
LAY = ["C", "F", "T", "row-strided", "col-strided", "reversed", "offset", "broadcast", "int64", "int32-F", "float32-F", "bool-like"]
def arr(n, p, lay, salt):
    rs = np.random.RandomState(100 * n + 10 * p + salt); base = np.round(rs.normal(size=(n, p)) * 8) / 4 + np.arange(n)[:, None] * .5
    if lay == "C": return np.ascontiguousarray(base)
    if lay == "F": return np.asfortranarray(base)
    if lay == "T": return np.ascontiguousarray(base.T).T
    if lay == "row-strided": b = np.full((2 * n + 1, p), -777.); b[1::2] = base; return b[1::2]
    if lay == "col-strided": b = np.full((n, 3 * p), -777.); b[:, 1::3] = base; return b[:, 1::3]
    if lay == "reversed": return np.ascontiguousarray(base[::-1, ::-1])[::-1, ::-1]
    if lay == "offset": b = np.full((n + 2, p + 2), -777.); b[1:-1, 1:-1] = base; return b[1:-1, 1:-1]
    if lay == "broadcast": return np.array(np.broadcast_to(base[:1], (n, p)))
    if lay == "int64": return np.round(base).astype(np.int64)
    if lay == "int32-F": return np.asfortranarray(np.round(base).astype(np.int32))
    if lay == "float32-F": return np.asfortranarray(base.astype(np.float32))
    return (base > 0).astype(np.int8)
def vec(n, lay, salt, positive=False):
    a = arr(n, 1, lay, salt) if lay not in ("col-strided", "T") else arr(n, 3, lay, salt)[:, 1:2]; a = a[:, 0]
    if positive: a = np.abs(a) + 1 if lay not in ("row-strided", "col-strided", "reversed", "offset") else a
    if positive and lay in ("row-strided", "col-strided", "reversed", "offset"): a[...] = np.abs(a) + 1
    return a
def snap(*xs): return [np.array(x, copy=True) for x in xs]
def covariates():
    n = 1 + vf.choose(4); p = 1 + vf.choose(3); lay = vf.choose(LAY); oned = vf.choose(2) if p == 1 else 0; again = vf.choose(["", "C", "F", "row-strided"]); d = Dataset()
    if again: o = arr(1 + vf.choose(3), 2, again, 9); d.add_covariates(o); vf.transition()
    X = arr(n, p, lay, 1); X_ = X[:, 0] if oned else X; k = snap(X_)[0]; d.add_covariates(X_); vf.transition(); vf.note("%d x %d %s 1-d %d" % (n, p, lay, oned)); vf.check(np.array_equal(X_, k) and X_.dtype == k.dtype, "input-modified", "covariates array modified"); E = X.astype(float).copy()
    if X_.flags.writeable: X_[...] = 5
    e = read_covariates(d, n, E); vf.check(e is None, "covariates", lambda: "%s layout: %s" % (lay, e)); vf.check(d.dataset_cpp.NumRows() == n, "rows", "row count"); vf.state(n, p, lay, oned, again); vf.outcome(E.tobytes())
def basis():
    n = 1 + vf.choose(4); p = 1 + vf.choose(3); lay = vf.choose(LAY); oned = vf.choose(2) if p == 1 else 0; lay2 = vf.choose([None] + LAY); d = Dataset(); X = np.arange(float(n)).reshape(-1, 1); d.add_covariates(X); B = arr(n, p, lay, 2); B_ = B[:, 0] if oned else B; k = snap(B_)[0]; d.add_basis(B_); vf.transition()
    vf.check(np.array_equal(B_, k), "input-modified", "basis array modified"); E = B.astype(float).copy(); B_[...] = 1
    e = read_basis(d, n, E); vf.check(e is None, "basis", lambda: "%s layout: %s" % (lay, e))
    if lay2:
        B = arr(n, p, lay2, 3); B_ = B[:, 0] if oned else B; k = snap(B_)[0]; d.update_basis(B_); vf.transition(); vf.check(np.array_equal(B_, k), "input-modified", "basis array modified"); E = B.astype(float).copy(); B_[...] = 1; e = read_basis(d, n, E); vf.check(e is None, "update-basis", lambda: "%s layout: %s" % (lay2, e)); e = read_covariates(d, n, X); vf.check(e is None, "covariates-after-update", lambda: e)
    for m in (n + 1, n + 40, max(1, n - 1)):
        if m == n or lay2: continue
        try: d.update_basis(arr(m, p, lay, 6)); vf.check(False, "bad-update-accepted", lambda: "a basis of %d rows was replaced by one of %d rows" % (n, m))
        except vf.Violation: raise
        except Exception: pass
        vf.transition(); e = read_basis(d, n, E); vf.check(e is None, "refused-update", lambda: "after a refused update: %s" % e)
    vf.state(n, p, lay, oned, lay2); vf.outcome(E.tobytes())
def leafmean(d, n, y, X):
    """fit one root tree with practically no prior and no noise: the leaf value is the weighted mean of the outcome"""
    ft = np.zeros(X.shape[1], dtype=int); fs = ForestSampler(d, ft, 1, n, 1e-12, 1., 1); fc = ForestContainer(1, 1, True); fs.sample_one_iteration(fc, d, Residual(y), RNG(3), ft, 5, np.array([[1e16]]), np.ones(X.shape[1]) / X.shape[1], 1e-14, 0, True, False); return fc.predict(d)[0, 0]
def weights():
    n = 1 + vf.choose(4); lay = vf.choose(LAY); d = Dataset(); X = np.zeros((n, 1)); d.add_covariates(X); w = vec(n, lay, 4, True); k = snap(w)[0]; d.add_variance_weights(w); vf.transition(); vf.check(np.array_equal(w, k), "input-modified", "weights modified"); E = w.astype(float).copy(); w[...] = 1; got = []
    for i in range(n): y = np.zeros(n); y[i] = 1.; got.append(leafmean(d, n, y, X)); vf.transition()
    for i in range(n): e = (1 / E[i]) / np.sum(1 / E); vf.check(abs(got[i] - e) < 1e-5, "weights", lambda: "%s layout, weights %s: observation %d has relative precision %.6g, expected %.6g" % (lay, E, i, got[i], e))
    vf.state(n, lay); vf.outcome(E.tobytes())
def residual():
    n = 1 + vf.choose(4); lay = vf.choose(LAY); d = Dataset(); X = np.zeros((n, 1)); d.add_covariates(X); y = vec(n, lay, 5); k = snap(y)[0]; E = y.astype(float).copy(); v = vf.choose(2)
    # the sum of squares through the variance draw, each element through one weighted fit, the caller's array left alone
    r = Residual(y); vf.transition(); vf.check(np.array_equal(y, k), "input-modified", "outcome modified"); y[...] = 7
    a = GlobalVarianceModel().sample_one_iteration(r, RNG(2), 3., .5); b = GlobalVarianceModel().sample_one_iteration(Residual(np.zeros(n)), RNG(2), 3., .5); s = (a / b - 1) * 2 * 1.5; vf.check(abs(s - np.sum(E * E)) < 1e-9 * (1 + np.sum(E * E)), "residual-sum", lambda: "%s layout: sum of squares %.10g, supplied %.10g" % (lay, s, np.sum(E * E)))
    for i in range(n):
        w = np.full(n, 1e12); w[i] = 1.; d2 = Dataset(); d2.add_covariates(X); d2.add_variance_weights(w); ft = np.zeros(1, dtype=int); y2 = vec(n, lay, 5); fs = ForestSampler(d2, ft, 1, n, 1e-12, 1., 1); fc = ForestContainer(1, 1, True); rr = Residual(y2); fs.sample_one_iteration(fc, d2, rr, RNG(3), ft, 5, np.array([[1e16]]), np.ones(1), 1e-14, 0, True, False); g = fc.predict(d2)[0, 0]; vf.transition()
        vf.check(abs(g - E[i]) < 1e-5 * (1 + abs(E[i])), "residual", lambda: "%s layout: element %d reads %.8g, supplied %.8g" % (lay, i, g, E[i])); vf.check(np.array_equal(y2, k), "input-modified", "sampling modified the caller's outcome array")
        # after the fit the residual holds outcome minus fit, so subtracting the forest again shows in the sum of squares
        a = GlobalVarianceModel().sample_one_iteration(rr, RNG(2), 3., .5); s = (a / b - 1) * 2 * 1.5; e = np.sum((E - g) ** 2); vf.check(abs(s - e) < 1e-8 * (1 + e), "residual-after-fit", lambda: "%s layout: residual sum of squares %.10g, expected %.10g" % (lay, s, e))
        if v: fs.update_residual(d2, rr, fc, False, 0, True); a = GlobalVarianceModel().sample_one_iteration(rr, RNG(2), 3., .5); s = (a / b - 1) * 2 * 1.5; e = np.sum(E ** 2); vf.check(abs(s - e) < 1e-8 * (1 + e), "residual-restored", lambda: "%s layout: adding the forest back leaves %.10g, expected %.10g" % (lay, s, e))
    vf.state(n, lay, v); vf.outcome(E.tobytes())
# settings arrays of the sampler: layouts and dtypes must not matter
def settings():
    n = 6; X = np.arange(12.).reshape(n, 2) % 5; lay = vf.choose(["C", "strided", "reversed", "F"]); K = vf.choose([1, 2]); gfr = bool(vf.choose(2)); seed = 1 + vf.choose(3); ftd = vf.choose([np.int32, np.int64])
    def mk(a): return a if lay == "C" else np.repeat(a, 2, axis=0)[::2] if lay == "strided" else np.ascontiguousarray(a[::-1])[::-1] if lay == "reversed" else np.asfortranarray(a)
    def run(mk, ftd):
        d = Dataset(); d.add_covariates(X); d.add_basis(np.column_stack([np.ones(n), X[:, 0] - 1])[:, :K]); ft = mk(np.array([0, 1])).astype(ftd); S = mk(np.array([[2., .3], [.3, .7]])[:K, :K]); w = mk(np.array([.9, .1])); fc = ForestContainer(2, K, False); fs = ForestSampler(d, ft, 2, n, .95, .5, 1); rng = RNG(seed); r = Residual(np.arange(6.) - 2.5)
        for s in range(3): fs.sample_one_iteration(fc, d, r, rng, ft, 5, S, w, .4, 2 if K > 1 else 1, gfr, False); vf.transition()
        return fc.predict(d), (ft, S, w)
    a, _ = run(lambda z: z, np.int32); b, arrs = run(mk, ftd); vf.check(np.array_equal(a, b), "settings-layout", lambda: "feature types, leaf scale and variable weights in %s layout give other samples" % lay); vf.state(lay, K, gfr, seed, str(ftd)); vf.outcome(a.tobytes())
vf.main([("covariates", covariates), ("basis", basis), ("weights", weights), ("outcome", residual), ("sampler-settings", settings)])
