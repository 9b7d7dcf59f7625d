# C19: the Python BART model -- every combination of switches, against an independent sampling loop over the public low-level classes
import warnings, numpy as np, pandas as pd, vfpy as vf
from scipy.stats import gamma
from stochtree import BARTModel, Dataset, Residual, ForestContainer, ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel, NotSampledError
N = 12
def inputs(kind, n_test):
    """covariates (train, test) in the form the user passes them, processed matrices, feature types"""
    a = np.array([0.5, 2.0, -1.0, 3.5, 0.5, 1.0, 4.0, -2.5, 2.0, 0.25, 1.5, -0.75]); b = np.array([1.0, 0, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1]); c = list("abcabacbbcaa")
    ti = [3, 0, 7, 10, 5][:n_test]; da = np.array([0.5, 0.0, -0.25, 1.0, 3.0])[:n_test]
    ta, tb, tc = a[ti] + da, b[ti], [c[i] for i in ti]
    if kind == "vector": return a, ta, a[:, None], ta[:, None], [0]
    if kind == "matrix": return np.c_[a, b, a * b], np.c_[ta, tb, ta * tb], np.c_[a, b, a * b], np.c_[ta, tb, ta * tb], [0, 0, 0]
    if kind == "fortran": return np.asfortranarray(np.c_[a, b]), np.asfortranarray(np.c_[ta, tb]), np.c_[a, b], np.c_[ta, tb], [0, 0]
    if kind == "text":
        f = lambda a, b, c: pd.DataFrame({"s": pd.Series(c, dtype="string"), "a": a, "t": pd.Series([int(z) - 1 for z in b], dtype=int), "u": pd.Series([z > 0 for z in b], dtype=bool)})
        g = lambda a, b, c: np.c_[[z == "a" for z in c], [z == "b" for z in c], [z == "c" for z in c], a, b - 1, b > 0].astype(float).reshape(len(c), 6)
        return f(a, b, c), f(ta, tb, tc), g(a, b, c), g(ta, tb, tc), [1, 1, 1, 0, 0, 1]
    f = lambda a, b, c: pd.DataFrame({"c": pd.Categorical(c, categories=["a", "b", "c"]), "a": a, "o": pd.Categorical([["lo", "mid", "hi"][int(z)] for z in b], categories=["lo", "mid", "hi"], ordered=True)})
    g = lambda a, b, c: np.c_[[z == "a" for z in c], [z == "b" for z in c], [z == "c" for z in c], a, b].astype(float).reshape(len(c), 5)
    return f(a, b, c), f(ta, tb, tc), g(a, b, c), g(ta, tb, tc), [1, 1, 1, 0, 1]
Y = np.array([3.0, 9.5, -2.0, 14.0, 2.0, 8.0, 16.5, -7.0, 8.5, 4.0, 5.5, -1.0]); Y2 = np.array([101.0, 99.5, 100.25, 100.0, 98.0, 103.0, 100.5, 97.0, 100.5, 101.0, 102.5, 99.0])
def basis(k, X, n):
    if k == 0: return None
    z = np.array([1.0, -0.5, 2.0, 0.0, 1.5, 1.0, -1.0, 0.5, 2.5, 1.0, -2.0, 0.75])[:n]
    return z if k == 1 else z[:, None] if k == 2 else np.c_[np.ones(n), z]
def reference(X, y, W, Xt, Wt, ft, c):
    """samples in order: (train prediction, test prediction, global variance, leaf scale) on the outcome scale"""
    n = len(y); ybar, ystd = y.mean(), y.std(); r = (y - ybar) / ystd; p = X.shape[1]; nb = 0 if W is None else 1 if W.ndim == 1 else W.shape[1]
    B = np.c_[np.ones(n), X]; s2 = np.mean((r - B @ np.linalg.lstsq(B, r, rcond=None)[0])**2)
    lamb = s2 * gamma.ppf(1 - c.get("q", 0.9), c["nu"]) / c["nu"] if c["lamb"] is None else c["lamb"]; g = s2 if c["sigma2"] is None else c["sigma2"]
    bl = r.var() / c["num_trees"] if c["b_leaf"] is None else c["b_leaf"]; sl = r.var() / c["num_trees"] if c["sigma_leaf"] is None else c["sigma_leaf"]
    ds = Dataset(); ds.add_covariates(X); dt = None
    if nb: ds.add_basis(W)
    if Xt is not None:
        dt = Dataset(); dt.add_covariates(Xt)
        if nb: dt.add_basis(Wt)
    res = Residual(r[:, None]); rng = RNG(c["random_seed"]); ft = np.asarray(ft); fs = ForestSampler(ds, ft, c["num_trees"], n, c["alpha"], c["beta"], c["min_samples_leaf"]); fc = ForestContainer(c["num_trees"], max(nb, 1), nb == 0)
    fc.set_root_leaves(0, 0.0 if nb < 2 else np.zeros(nb)); fs.update_residual(ds, res, fc, nb > 0, 0, True)
    gm, lm = GlobalVarianceModel(), LeafVarianceModel(); S = c["num_gfr"] + c["num_burnin"] + c["num_mcmc"]; gs, ls = [], []
    scale = np.eye(max(nb, 1)) * sl; w = np.full(p, 1.0 / p)
    for i in range(S):
        fs.sample_one_iteration(fc, ds, res, rng, ft, c["cutpoint_grid_size"], scale, w, g, min(nb, 2), i < c["num_gfr"], True)
        if c["sample_sigma_global"]: g = gm.sample_one_iteration(res, rng, c["nu"], lamb); gs.append(g * ystd**2)
        if c["sample_sigma_leaf"]: scale = np.array([[lm.sample_one_iteration(fc, rng, c["a_leaf"], bl, i)]]); ls.append(scale[0, 0])
    return fc.predict(ds) * ystd + ybar, None if dt is None else fc.predict(dt) * ystd + ybar, np.array(gs), np.array(ls), fc, ds
def kept(c, keep_gfr, keep_burnin):
    """sample numbers retained, in sampling order"""
    G, B, M = c["num_gfr"], c["num_burnin"], c["num_mcmc"]; gi, bi, mi = list(range(G)), list(range(G, G + B)), list(range(G + B, G + B + M))
    if M == 0: return gi or bi
    if keep_gfr and G: return gi + mi
    return bi + mi if keep_burnin else mi
def close(a, b): return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-8)
def verify(m, X, Xt, W, Wt, Xp, Xtp, ft, y, c, kg, kb):
    K = kept(c, kg, kb); R = reference(Xp, y, W, Xtp if Xt is not None else None, Wt, ft, c); n = len(y)
    vf.check(np.shape(m.y_hat_train) == (n, len(K)), "train-shape", lambda: "y_hat_train has shape %s, expected %s (kept samples %s)" % (np.shape(m.y_hat_train), (n, len(K)), K))
    vf.check(close(m.y_hat_train, R[0][:, K]), "train-fit", lambda: "y_hat_train %s, sampling loop with the same seed gives %s for samples %s" % (m.y_hat_train[:2], R[0][:2, K], K))
    p = m.predict(X) if W is None else m.predict(X, W)
    vf.check(close(p, m.y_hat_train), "predict-train", lambda: "predict on the training rows %s, y_hat_train %s" % (np.asarray(p)[:2], m.y_hat_train[:2]))
    if Xt is not None:
        vf.check(np.shape(m.y_hat_test) == (len(Xt), len(K)), "test-shape", lambda: "y_hat_test has shape %s" % (np.shape(m.y_hat_test),))
        vf.check(close(m.y_hat_test, R[1][:, K]), "test-fit", lambda: "y_hat_test %s, expected %s" % (m.y_hat_test[:2], R[1][:2, K]))
        p = m.predict(Xt) if W is None else m.predict(Xt, Wt)
        vf.check(close(p, m.y_hat_test), "predict-test", lambda: "predict on the test rows %s, y_hat_test %s" % (np.asarray(p)[:2], m.y_hat_test[:2]))
    for on, attr, ref, key in ((c["sample_sigma_global"], "global_var_samples", R[2], "variance-draws"), (c["sample_sigma_leaf"], "leaf_scale_samples", R[3], "leaf-scale-draws")):
        if not on: continue
        a = np.asarray(getattr(m, attr)); a = a if len(a) == len(K) and len(K) != len(ref) else a[np.asarray(K)] if len(a) == len(ref) else a
        vf.check(close(a, ref[K]), key, lambda: "%s at the kept samples %s, draws made with those forests %s" % (attr, a, ref[K]))
    vf.check(m.is_sampled() is True, "sampled-flag", "model not marked as sampled"); vf.transition(c["num_gfr"] + c["num_burnin"] + c["num_mcmc"]); vf.outcome(np.round(m.y_hat_train, 6).tolist()); vf.state(tuple(K), W is None, ft)
    vf.count("samples kept", len(K)); return R
def counts(top): return dict(num_gfr=vf.choose(top + 1), num_burnin=vf.choose(top + 1), num_mcmc=vf.choose(top + 1))
def settings(c, full):
    d = dict(alpha=0.95, beta=2.0, min_samples_leaf=1, nu=3, a_leaf=3, lamb=None, sigma2=None, b_leaf=None, sigma_leaf=None, cutpoint_grid_size=100, num_trees=2, random_seed=11, sample_sigma_global=True, sample_sigma_leaf=True); d.update(c)
    if full:
        k = vf.choose(3); d.update([dict(), dict(alpha=0.5, beta=0.5, min_samples_leaf=3, cutpoint_grid_size=2), dict(nu=5, a_leaf=1.5, cutpoint_grid_size=5)][k])
        if vf.choose(2): d["lamb"] = 0.75
        if vf.choose(2): d["sigma2"] = 0.3
        if vf.choose(2): d["b_leaf"] = 0.2
        if vf.choose(2): d["sigma_leaf"] = 0.4
    return d
def fit(m, X, y, W, Xt, Wt, c, kg, kb):
    a = dict(c)
    if Xt is not None: a["X_test"] = Xt
    if W is not None: a["basis_train"] = W
    if Xt is not None and W is not None: a["basis_test"] = Wt
    m.sample(X, y, keep_gfr=kg, keep_burnin=kb, **a); return m
def copies(*a): return [None if z is None else z.copy() for z in a]
def same(a, b): return all(x is None or (x.equals(y) if isinstance(x, pd.DataFrame) else np.array_equal(x, y)) for x, y in zip(a, b))
def one(c, kg, kb, kind, bk, test, ycol, y):
    X, Xt, Xp, Xtp, ft = inputs(kind, test); W, Wt = basis(bk, X, N), basis(bk, Xt, test) if test else None
    if not test: Xt = None
    if bk == 3: c["sample_sigma_leaf"] = False
    vf.note("%s, %s covariates, basis %d, %d test rows, keep_gfr=%s keep_burnin=%s" % (c, kind, bk, test, kg, kb)); m = BARTModel(); yy = y[:, None] if ycol else y; before = copies(X, Xt, W, Wt, yy)
    if c["num_gfr"] + c["num_burnin"] + c["num_mcmc"] == 0:
        try: fit(m, X, yy, W, Xt, Wt, c, kg, kb)
        except (RuntimeError, ValueError): vf.outcome("nothing to retain"); return
        vf.fail("no-samples", "sampling nothing was accepted")
    fit(m, X, yy, W, Xt, Wt, c, kg, kb); vf.check(same(before, [X, Xt, W, Wt, yy]), "inputs-changed", "sample() changed the arrays passed in")
    return m, verify(m, X, Xt, W, Wt, Xp, Xtp, ft, y, c, kg, kb), (X, Xt, W, Wt, Xp, Xtp, ft)
def switches():
    c = counts(3 if vf.thorough() else 2); kg, kb = bool(vf.choose(2)), bool(vf.choose(2)); bk = vf.choose([0, 2, 3]); c["sample_sigma_global"] = bool(vf.choose(2)); c["sample_sigma_leaf"] = bk != 3 and bool(vf.choose(2)); test = vf.pick(0, 3)
    one(settings(c, False), kg, kb, vf.pick("matrix", "frame") if vf.thorough() else "matrix", bk, test, 0, Y)
def settings_grid():
    c = vf.choose([dict(num_gfr=2, num_burnin=0, num_mcmc=2), dict(num_gfr=0, num_burnin=1, num_mcmc=2), dict(num_gfr=3, num_burnin=0, num_mcmc=0)]); c["num_trees"] = 1 + vf.choose(3); c["random_seed"] = vf.pick(1, 2024); c["sample_sigma_global"] = bool(vf.choose(2)); c["sample_sigma_leaf"] = bool(vf.choose(2))
    one(settings(c, True), False, False, "matrix", vf.pick(0, 2), 2, 0, vf.pick(Y, Y2) if vf.thorough() else Y2)
def forms():
    c = vf.choose([dict(num_gfr=2, num_burnin=0, num_mcmc=1), dict(num_gfr=0, num_burnin=2, num_mcmc=2), dict(num_gfr=1, num_burnin=0, num_mcmc=0)]); kind = vf.pick("vector", "matrix", "fortran", "frame", "text"); bk = vf.choose(4); test = vf.choose(4); ycol = vf.choose(2); c["num_trees"] = vf.pick(1, 3)
    r = one(settings(c, False), bool(vf.choose(2)), False, kind, bk, test, ycol, vf.pick(Y, Y2))
    # prediction on every single row and on reordered rows agrees with the stored fits
    m, _, (X, Xt, W, Wt, Xp, Xtp, ft) = r; sub = lambda z, i: None if z is None else z.iloc[i] if isinstance(z, pd.DataFrame) else z[i]
    for idx in [[i] for i in range(N)] + [list(range(N))[::-1]]:
        p = m.predict(sub(X, idx)) if W is None else m.predict(sub(X, idx), sub(W, idx))
        vf.check(close(p, m.y_hat_train[idx]), "predict-rows", lambda: "predict on rows %s gives %s, y_hat_train has %s" % (idx, p, m.y_hat_train[idx]))
def again():
    """a model sampled several times, and several models side by side: each result is that of a fresh model"""
    ms = [BARTModel(), BARTModel()]; last = [None, None]
    for step in range(4 if vf.thorough() else 3):
        k = vf.choose(2) if step else 0; cfg = vf.choose(5)
        kind, bk, test, c, kg = [("matrix", 0, 3, dict(num_gfr=2, num_burnin=0, num_mcmc=2), False), ("frame", 2, 0, dict(num_gfr=0, num_burnin=1, num_mcmc=1, sample_sigma_leaf=False), False), ("frame", 0, 2, dict(num_gfr=1, num_burnin=0, num_mcmc=1, sample_sigma_global=False), True), ("vector", 3, 1, dict(num_gfr=2, num_burnin=0, num_mcmc=0, sample_sigma_leaf=False), False), ("matrix", 2, 2, dict(num_gfr=1, num_burnin=1, num_mcmc=3), False)][cfg]
        if last[k] is None:
            try: ms[k].predict(np.zeros((2, 3))); vf.fail("predict-unsampled", "predict before sample was accepted")
            except NotSampledError: pass
        c = settings(c, False); y = [Y, Y2][step % 2]; X, Xt, Xp, Xtp, ft = inputs(kind, test); W, Wt = basis(bk, X, N), basis(bk, Xt, test)
        if not test: Xt = None
        vf.note("model %d: configuration %d" % (k, cfg)); fit(ms[k], X, y, W, Xt, Wt, c, kg, False); last[k] = (X, Xt, W, Wt, Xp, Xtp, ft, y, c, kg)
        for j in (0, 1):
            if last[j] is not None: X, Xt, W, Wt, Xp, Xtp, ft, y, c, kg = last[j]; verify(ms[j], X, Xt, W, Wt, Xp, Xtp, ft, y, c, kg, False)
def refusals():
    """inputs that do not belong together are refused, on a new model and on a sampled one, which goes on predicting as before"""
    kind = vf.pick("vector", "matrix", "frame"); bk = vf.choose([0, 1, 3]); prior = vf.choose(2); X, Xt, Xp, Xtp, ft = inputs(kind, 3); W, Wt = basis(bk, X, N), basis(bk, Xt, 3); c = settings(dict(num_gfr=1, num_burnin=0, num_mcmc=2, sample_sigma_leaf=bk != 3), False); m = BARTModel(); frame = isinstance(X, pd.DataFrame)
    rows = lambda z, k: None if z is None else (pd.concat([z, z.iloc[:1]]) if k > 0 else z.iloc[:-1]) if isinstance(z, pd.DataFrame) else (np.concatenate([z, z[:1]]) if k > 0 else z[:-1])
    cols = lambda z, k: z.assign(extra=1.0) if frame and k > 0 else z.iloc[:, :-1] if frame else np.c_[z, np.ones(len(z))] if k > 0 else z[:, :-1]
    if prior: fit(m, X, Y, W, Xt, Wt, c, False, False); before = m.predict(X) if W is None else m.predict(X, W)
    k = vf.pick(1, -1); what = vf.pick("y rows", "basis rows", "test columns", "test basis rows", "test basis columns", "lone test basis", "predict columns", "predict basis rows", "predict basis columns", "missing test basis", "predict without its basis", "too short a schedule", "leaf scale of a multivariate basis"); a = [X, Y, W, Xt, Wt]; q = None
    if prior: a[1] = Y2
    if what == "y rows": a[1] = rows(a[1], k)
    elif what == "basis rows": a[2] = rows(W, k)
    elif what == "test columns": a[3] = None if k < 0 and kind == "vector" else cols(Xt, k)
    elif what == "test basis rows": a[4] = rows(Wt, k)
    elif what == "test basis columns": a[4] = None if W is None or (k < 0 and bk == 1) else np.c_[Wt, np.ones(3)] if k > 0 else Wt[:, :1]
    elif what == "lone test basis": a[2], a[4] = None, np.ones(3)
    elif what == "predict columns": q = (X if k < 0 and kind == "vector" else cols(X, k), W)
    elif what == "predict basis rows": q = (X, rows(W, k))
    elif what == "predict basis columns": q = (X, None if W is None or (k < 0 and bk == 1) else np.c_[W, np.ones(N)] if k > 0 else W[:, :1])
    elif what == "predict without its basis": q = (X if k > 0 else Xt,)
    elif what == "missing test basis": a[4] = None
    elif what == "too short a schedule": c.update(num_gfr=0, num_mcmc=0)
    else: c["sample_sigma_leaf"] = True
    if q is not None and not prior or (what in ("test columns", "predict columns") and k < 0 and kind == "vector") or (what != "lone test basis" and "basis" in what and "scale" not in what and W is None) or (what.endswith("basis columns") and k < 0 and bk == 1) or ("scale" in what and bk != 3): vf.outcome("not applicable"); return
    vf.note("%s covariates, basis %d, %s %+d, %s" % (kind, bk, what, k, "sampled before" if prior else "new model"))
    try:
        if q is not None: m.predict(*[z for z in q if z is not None])
        elif what == "missing test basis": m.sample(a[0], a[1], basis_train=a[2], X_test=a[3], **c)
        elif what == "lone test basis": m.sample(a[0], a[1], X_test=a[3], basis_test=a[4], **c)
        else: fit(m, a[0], a[1], a[2], a[3], a[4], c, False, False)
        ok = False
    except Exception as e: ok = True; vf.outcome(what, type(e).__name__)
    vf.check(ok, "accepted-" + what.replace(" ", "-"), "inconsistent input accepted: %s (%+d)" % (what, k)); vf.transition(); vf.state(kind, bk, prior, what, k)
    if prior: p = m.predict(X) if W is None else m.predict(X, W); vf.check(close(p, before), "predict-after-refusal", lambda: "after a refused call (%s) predict gives %s, before %s" % (what, np.asarray(p)[:2], before[:2]))
    else: vf.check(m.is_sampled() is False, "sampled-flag", "a refused call marks the model as sampled")
vf.main([("refusals", refusals), ("switches", switches), ("settings_grid", settings_grid), ("forms", forms), ("again", again)])
