# C09 through the Python interface: layout of predict / predict_raw / predict_raw_single_forest for every small combination of shapes.
import numpy as np, vfpy as vf
from stochtree import Dataset, Residual, RNG, ForestSampler, ForestContainer
from stochtree.serialization import JSONSerializer
def ds_of(X, B):
    d = Dataset(); d.add_covariates(X)
    if B is not None: d.add_basis(B)
    return d
def run():
    model = vf.choose(3); k = [1, 1, 2 + vf.choose(2)][model] if model == 2 else 1; S = vf.choose([1, 2, 4]); T = vf.choose([1, 2, 3]); n = vf.choose([5, 7]); ntest = vf.choose([1, 2, 4]); seed = vf.choose(4 if vf.thorough() else 2); gfr = vf.choose(2); order = vf.choose(3)
    rs = np.random.RandomState(3); X = np.round(rs.uniform(-2, 2, (n, 2)), 1); B = rs.uniform(-1, 1, (n, k)) if model else None; y = rs.normal(size=n); y = y - y.mean()
    d = ds_of(X, B); r = Residual(y.copy()); rng = RNG(seed); ft = np.zeros(2, dtype=int); fs = ForestSampler(d, ft, T, n, .95, 1.0, 1); fc = ForestContainer(T, k, model == 0)
    for s in range(S): fs.sample_one_iteration(fc, d, r, rng, ft, 10, np.eye(k) * .5, np.ones(2) / 2, .3, model, bool(gfr) or s == 0, False); vf.transition()
    Xt = np.round(rs.uniform(-2, 2, (4, 2)), 1)[:ntest]; Bt = rs.uniform(-1, 1, (ntest, k)) if model else None
    if order == 1: Xt = np.asfortranarray(Xt); Bt = None if Bt is None else np.asfortranarray(Bt)
    if order == 2:
        big = np.zeros((ntest, 4)); big[:, ::2] = Xt; Xt = big[:, ::2]
        if Bt is not None: bb = np.zeros((2 * ntest, k)); bb[::2] = Bt; Bt = bb[::2]
    P = fc.predict(ds_of(Xt, Bt)); R = fc.predict_raw(ds_of(Xt, Bt))
    vf.check(P.shape == (ntest, S), "shape", lambda: "predict returned shape %s for %d rows and %d samples" % (P.shape, ntest, S)); vf.check(R.shape == (ntest, S, k), "shape", lambda: "predict_raw returned shape %s for %d rows, %d samples, %d outputs" % (R.shape, ntest, S, k))
    for j in range(S):
        R1 = fc.predict_raw_single_forest(ds_of(Xt, Bt), j); vf.check(R1.shape == (ntest, k) and np.array_equal(R1, R[:, j, :]), "single-forest", lambda: "predict_raw_single_forest(%d) differs from the slice of predict_raw" % j)
    for i in range(ntest):
        xi = np.array([list(Xt[i])]); bi = None if Bt is None else np.array([list(Bt[i])]); Pi = fc.predict(ds_of(xi, bi)); Ri = fc.predict_raw(ds_of(xi, bi))
        vf.check(np.array_equal(Pi[0], P[i]) and np.array_equal(Ri[0], R[i]), "row-layout", lambda: "row %d predicted alone gives %s, within the data set %s" % (i, Pi[0], P[i]))
    E = (R * (np.ones((ntest, k)) if Bt is None else Bt)[:, None, :]).sum(axis=2); vf.check(np.allclose(E, P, rtol=1e-9, atol=1e-9), "raw-times-basis", "predictions are not the raw leaf parameters times the basis")
    # the reloaded container predicts the same; a container of the last sample only is the last slice
    js = JSONSerializer(); js.add_forest(fc); g = js.get_forest_container("forest_0"); vf.check(np.array_equal(g.predict(ds_of(Xt, Bt)), P), "reloaded", "reloaded container predicts differently")
    vf.state(P.round(9).tobytes(), model, k, S, T, n, ntest); vf.outcome(P.round(6).tobytes())
vf.main([("python-layout", run)])
