# C20: the Python BCF model -- every combination of switches, against an independent sampling loop over the public low-level classes
import json, tempfile, os, numpy as np, pandas as pd, vfpy as vf
from scipy.stats import gamma
from stochtree import BCFModel, Dataset, Residual, ForestContainer, ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel, NotSampledError
N = 12; REAL = np.random.default_rng; ZS = [0.0, 1.25, -0.75, 0.5, 2.0, -1.5, 0.25]
class Gen:
    """stands in for numpy's generator: every normal draw is loc + scale * z with z from a known sequence, so the draws show the distribution they came from"""
    start = 0
    def __init__(self, seed=None): self.k = Gen.start; self.g = REAL(seed)
    def _z(self, size):
        k = 1 if size is None else int(np.prod(size)); z = [ZS[(self.k + i) % len(ZS)] for i in range(k)]; self.k += k
        return z[0] if size is None else np.array(z).reshape(size)
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self._z(size)
    def standard_normal(self, size=None): return self._z(size)
    def __getattr__(self, n): return getattr(self.g, n)
A = np.array([0.5, 2.0, -1.0, 3.5, 0.5, 1.0, 4.0, -2.5, 2.0, 0.25, 1.5, -0.75]); B = np.array([1.0, 0, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1]); CC = list("abcabacbbcaa"); TI = [3, 0, 7, 10, 5]; DA = np.array([0.5, 0.0, -0.25, 1.0, 3.0])
PI = np.array([0.3, 0.6, 0.4, 0.7, 0.2, 0.5, 0.8, 0.35, 0.45, 0.65, 0.55, 0.25]); Y = np.array([3.0, 9.5, -2.0, 14.0, 2.0, 8.0, 16.5, -7.0, 8.5, 4.0, 5.5, -1.0])
ZB = np.array([1.0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0]); ZC = np.array([0.5, -1.0, 2.0, 0.0, 1.5, -0.5, 1.0, 2.5, -2.0, 0.25, 0.75, 1.0])
Z = {"binary": ZB, "column": ZB[:, None], "int": ZB.astype(int), "coded": 2 * ZB - 1, "shifted": ZB + 1, "continuous": ZC, "multi": np.c_[ZB, ZC], "multibin": np.c_[ZB, 1 - ZB]}
def inputs(kind, nt):
    ti, da = TI[:nt], DA[:nt]; ta, tb, tc = A[ti] + da, B[ti], [CC[i] for i in ti]; W = A * B - 0.5 * A; tw = ta * tb - 0.5 * ta
    if kind == "vector": return A, ta, A[:, None], ta[:, None], [0], [0]
    if kind == "matrix": return np.c_[A, B, W], np.c_[ta, tb, tw], np.c_[A, B, W], np.c_[ta, tb, tw], [0, 0, 0], [0, 1, 2]
    if kind == "text":
        f = lambda a, b, c: pd.DataFrame({"s": pd.Series(c, dtype="string"), "a": a, "t": pd.Series([int(z) - 1 for z in b], dtype=int)}); g = lambda a, b, c: np.c_[[z == "a" for z in c], [z == "b" for z in c], [z == "c" for z in c], a, b - 1].astype(float).reshape(len(c), 5)
        return f(A, B, CC), f(ta, tb, tc), g(A, B, CC), g(ta, tb, tc), [1, 1, 1, 0, 0], [0, 0, 0, 1, 2]
    f = lambda a, b, c: pd.DataFrame({"c": pd.Categorical(c, categories=["a", "b", "c"]), "a": a, "o": pd.Categorical([["lo", "mid", "hi"][int(z)] for z in b], categories=["lo", "mid", "hi"], ordered=True)})
    g = lambda a, b, c: np.c_[[z == "a" for z in c], [z == "b" for z in c], [z == "c" for z in c], a, b].astype(float).reshape(len(c), 5)
    return f(A, B, CC), f(ta, tb, tc), g(A, B, CC), g(ta, tb, tc), [1, 1, 1, 0, 1], [0, 0, 0, 1, 2]
def col(z): return z[:, None] if z.ndim == 1 else z
def reference(X, Zt, y, pi, Xt, Zs, pis, ft, orig, c, sub_mu, sub_tau, w):
    n = len(y); Zt = col(Zt).astype(float); d = Zt.shape[1]; y = y.reshape(-1); ybar, ystd = y.mean(), y.std(); r = (y - ybar) / ystd; P = len(set(orig))
    Bm = np.c_[np.ones(n), X]; s2 = np.mean((r - Bm @ np.linalg.lstsq(Bm, r, rcond=None)[0])**2); lamb = s2 * gamma.ppf(1 - 0.9, c["nu"]) / c["nu"] if c["lamb"] is None else c["lamb"]; g = s2 if c["sigma2"] is None else c["sigma2"]
    v = r.var(); bm = v / c["num_trees_mu"] if c["b_leaf_mu"] is None else c["b_leaf_mu"]; bt = v / (2 * c["num_trees_tau"]) if c["b_leaf_tau"] is None else c["b_leaf_tau"]; sm = v / c["num_trees_mu"] if c["sigma_leaf_mu"] is None else c["sigma_leaf_mu"]
    st = v / (2 * c["num_trees_tau"]) if c["sigma_leaf_tau"] is None else c["sigma_leaf_tau"]; sm = np.array([[sm]]); st = np.array(st, dtype=float) if np.ndim(st) == 2 else np.eye(d) * st
    w = np.full(P, 1.0 / P) if w is None else w; base = np.array([w[o] / orig.count(o) for o in orig]); wm = np.array([b if o in sub_mu else 0.0 for b, o in zip(base, orig)]); wt = np.array([b if o in sub_tau else 0.0 for b, o in zip(base, orig)]); pc = c["propensity_covariate"]; ft = list(ft)
    if pc != "none":
        k = pi.shape[1]; X = np.c_[X, pi]; ft = ft + [0] * k; wm = np.r_[wm, np.full(k, 1.0 / P if pc in ("mu", "both") else 0.0)]; wt = np.r_[wt, np.full(k, 1.0 / P if pc in ("tau", "both") else 0.0)]
        if Xt is not None: Xt = np.c_[Xt, pis]
    wm, wt = wm / wm.sum(), wt / wt.sum(); ft = np.array(ft); adapt = c["adaptive_coding"] and d == 1 and set(Zt.ravel()) == {0.0, 1.0}; b0, b1 = c["b_0"], c["b_1"]; gen = Gen()
    code = lambda z: (1 - z) * b0 + z * b1 if adapt else z
    ds = Dataset(); ds.add_covariates(X); ds.add_basis(code(Zt)); res = Residual(r[:, None]); rng = RNG(c["random_seed"]); fsm = ForestSampler(ds, ft, c["num_trees_mu"], n, c["alpha_mu"], c["beta_mu"], c["min_samples_leaf_mu"]); fst = ForestSampler(ds, ft, c["num_trees_tau"], n, c["alpha_tau"], c["beta_tau"], c["min_samples_leaf_tau"])
    fm, ftau = ForestContainer(c["num_trees_mu"], 1, True), ForestContainer(c["num_trees_tau"], d, False); fm.set_root_leaves(0, 0.0); fsm.update_residual(ds, res, fm, False, 0, True); ftau.set_root_leaves(0, 0.0 if d == 1 else np.zeros(d)); fst.update_residual(ds, res, ftau, True, 0, True)
    gm, lm, lt = GlobalVarianceModel(), LeafVarianceModel(), LeafVarianceModel(); S = c["num_gfr"] + c["num_burnin"] + c["num_mcmc"]; gs, lms, lts, b0s, b1s = [], [], [], [], []
    for i in range(S):
        gfr = i < c["num_gfr"]; fsm.sample_one_iteration(fm, ds, res, rng, ft, c["cutpoint_grid_size"], sm, wm, g, 0, gfr, True)
        if c["sample_sigma_global"]: g = gm.sample_one_iteration(res, rng, c["nu"], lamb)
        if c["sample_sigma_leaf_mu"]: sm = np.array([[lm.sample_one_iteration(fm, rng, c["a_leaf_mu"], bm, i)]]); lms.append(sm[0, 0])
        fst.sample_one_iteration(ftau, ds, res, rng, ft, c["cutpoint_grid_size"], st, wt, g, 1 if d == 1 else 2, gfr, True)
        if c["sample_sigma_global"]: g = gm.sample_one_iteration(res, rng, c["nu"], lamb); gs.append(g * ystd**2)
        if c["sample_sigma_leaf_tau"] and d == 1: st = np.array([[lt.sample_one_iteration(ftau, rng, c["a_leaf_tau"], bt, i)]]); lts.append(st[0, 0])
        if adapt:
            t = ftau.predict_raw_single_forest(ds, i)[:, 0]; pr = r - fm.predict_raw_single_forest(ds, i)[:, 0]; z = Zt[:, 0]; new = []
            for a in (0, 1): k = z == a; den = (t[k]**2).sum() + 2 * g; new.append((t[k] * pr[k]).sum() / den + np.sqrt(g / den) * gen._z(None))
            fst.update_residual(ds, res, ftau, True, i, True); b0, b1 = new; ds.update_basis(code(Zt)); fst.update_residual(ds, res, ftau, True, i, False)
        b0s.append(b0); b1s.append(b1)
    mult = (np.array(b1s) - np.array(b0s))[None, :, None] if adapt else 1.0
    def out(X):
        p = Dataset(); p.add_covariates(X); p.add_basis(np.zeros((len(X), d))); return fm.predict(p) * ystd + ybar, ftau.predict_raw(p) * mult * ystd
    return out(X), None if Xt is None else out(Xt), np.array(gs), np.array(lms), np.array(lts), (np.array(b0s), np.array(b1s)) if adapt else None
def kept(c, keep_gfr, keep_burnin):
    G, Bn, M = c["num_gfr"], c["num_burnin"], c["num_mcmc"]; gi, bi, mi = list(range(G)), list(range(G, G + Bn)), list(range(G + Bn, G + Bn + M))
    if M == 0: return gi or bi
    if keep_gfr and G: return gi + mi
    return bi + mi if keep_burnin else mi
def close(a, b): return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-8)
def tau3(t, n, S, d, what):
    t = np.asarray(t); vf.check(t.shape == (n, S, d) or (d == 1 and t.shape == (n, S)), "tau-shape", lambda: "%s has shape %s, expected %s" % (what, t.shape, (n, S, d))); return t.reshape(n, S, d)
def splits(container):
    f = tempfile.NamedTemporaryFile(suffix=".json", delete=False); f.close()
    try:
        container.save_to_json_file(f.name); j = json.load(open(f.name))
    finally: os.unlink(f.name)
    out = set()
    def walk(o):
        if isinstance(o, dict):
            if "split_index" in o and "left" in o:
                out.update(int(s) for s, l in zip(o["split_index"], o["left"]) if l >= 0)
            for v in o.values(): walk(v)
        elif isinstance(o, list):
            for v in o: walk(v)
    walk(j); return out
BASE = dict(alpha_mu=0.95, beta_mu=2.0, alpha_tau=0.8, beta_tau=1.0, min_samples_leaf_mu=1, min_samples_leaf_tau=1, nu=3, a_leaf_mu=3, a_leaf_tau=3, lamb=None, sigma2=None, b_leaf_mu=None, b_leaf_tau=None, sigma_leaf_mu=None, sigma_leaf_tau=None, cutpoint_grid_size=100, num_trees_mu=2, num_trees_tau=2, random_seed=11, sample_sigma_global=True, sample_sigma_leaf_mu=True, sample_sigma_leaf_tau=False, propensity_covariate="mu", adaptive_coding=True, b_0=-0.5, b_1=0.5)
def run(m, c, kg, kb, kind, zk, nt, pmode, ycol=0, lists={}, sub_mu=None, sub_tau=None, w=None, single_rows=False):
    """fit the model and check everything it reports"""
    X, Xt, Xp, Xtp, ft, orig = inputs(kind, nt); Zt = Z[zk]; d = 1 if Zt.ndim == 1 else Zt.shape[1]; Zs = Zt[TI[:nt]] if nt else None; y = Y[:, None] if ycol else Y; c = dict(BASE, **c); pc = c["propensity_covariate"]; P = len(set(orig))
    pi = None if pmode == "internal" else PI[:, None] if pmode == "one" else np.c_[PI, PI[::-1]]; pis = None if pi is None or not nt else pi[TI[:nt]] + 0.0
    if pmode == "one" and ycol == 0 and pi is not None: pu, pus = pi[:, 0], None if pis is None else pis[:, 0]
    else: pu, pus = pi, pis
    sub_mu = list(range(P)) if sub_mu is None else sub_mu; sub_tau = list(range(P)) if sub_tau is None else sub_tau
    kw = dict(c, keep_gfr=kg, keep_burnin=kb, **lists)
    if nt: kw.update(X_test=Xt, Z_test=Zs)
    if pu is not None: kw["pi_train"] = pu
    if pus is not None: kw["pi_test"] = pus
    if w is not None: kw["variable_weights"] = w.copy()
    vf.note("%s covariates, %s treatment, %d test rows, propensity %s/%s, lists %s, %s keep_gfr=%s keep_burnin=%s" % (kind, zk, nt, pmode, pc, lists, c, kg, kb))
    before = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in list(kw.items()) + [("X", X), ("Z", Zt), ("y", y)]}; np.random.default_rng = Gen
    try: 
        if not isinstance(m, BCFModel): m = BCFModel()
        m.sample(X, Zt, y, **kw)
    finally: np.random.default_rng = REAL
    for k, v in list(kw.items()) + [("X", X), ("Z", Zt), ("y", y)]:
        if isinstance(v, (np.ndarray, list)): vf.check(np.array_equal(v, before[k]), "inputs-changed", "sample() changed argument %s" % k)
        elif isinstance(v, pd.DataFrame): vf.check(v.equals(before[k]), "inputs-changed", "sample() changed argument %s" % k)
    K = kept(c, kg, kb); S = len(K); internal = pmode == "internal" and pc != "none"
    def consistent(n, mu, tau, yh, z, what):
        mu, yh = np.asarray(mu), np.asarray(yh); vf.check(mu.shape == (n, S) and yh.shape == (n, S), "shape", lambda: "%s: mu_hat has shape %s and y_hat %s, expected %s" % (what, mu.shape, yh.shape, (n, S)))
        t = tau3(tau, n, S, d, what + " tau_hat"); e = mu + (col(z)[:, None, :] * t).sum(axis=2); vf.check(close(yh, e), "outcome-decomposition", lambda: "%s: y_hat %s, mu_hat + tau_hat * Z %s" % (what, yh[:2], e[:2])); return t
    tt = consistent(N, m.mu_hat_train, m.tau_hat_train, m.y_hat_train, Zt, "train"); ts = consistent(nt, m.mu_hat_test, m.tau_hat_test, m.y_hat_test, Zs, "test") if nt else None
    def agree(Xq, Zq, pq, mu, t, yh, what):
        a = (Xq, Zq) if pq is None else (Xq, Zq, pq); p = m.predict(*a); n = len(mu)
        vf.check(close(p[1], mu), "predict-mu", lambda: "%s: predict gives mu %s, stored %s" % (what, np.asarray(p[1])[:2], mu[:2]))
        vf.check(close(tau3(p[0], n, S, d, what + " predicted tau"), t), "predict-tau", lambda: "%s: predict gives tau %s, stored %s" % (what, np.asarray(p[0])[:2], t[:2])); vf.check(close(p[2], yh), "predict-y", lambda: "%s: predict gives y %s, stored %s" % (what, np.asarray(p[2])[:2], yh[:2]))
        t2 = tau3(m.predict_tau(*a), n, S, d, what + " predict_tau"); vf.check(close(t2, t), "predict_tau", lambda: "%s: predict_tau %s, stored %s" % (what, t2[:2], t[:2]))
    agree(X, Zt, pu, m.mu_hat_train, tt, m.y_hat_train, "training rows")
    if nt: agree(Xt, Zs, pus, m.mu_hat_test, ts, m.y_hat_test, "test rows")
    if single_rows:
        for idx in [[i] for i in range(0, N, 3)] + [list(range(N))[::-1]]:
            agree(X.iloc[idx] if isinstance(X, pd.DataFrame) else X[idx], Zt[idx], None if pu is None else pu[idx], m.mu_hat_train[idx], tt[idx], m.y_hat_train[idx], "rows %s" % idx)
    npi = 0 if pc == "none" else 1 if pi is None else pi.shape[1]; pcols = list(range(len(orig), len(orig) + npi))
    for cont, sub, own, nm in ((m.forest_container_mu, sub_mu, ("mu", "both"), "prognostic"), (m.forest_container_tau, sub_tau, ("tau", "both"), "treatment")):
        ok = {j for j, o in enumerate(orig) if o in sub} | (set(pcols) if pc in own else set()); used = splits(cont); vf.check(used <= ok, "split-variables", lambda: "the %s forest splits on columns %s, allowed %s" % (nm, sorted(used), sorted(ok))); vf.count("forests with splits", len(used) > 0)
    if not internal:
        R = reference(Xp, Zt, Y, pi, Xtp if nt else None, Zs, pis, ft, orig, c, sub_mu, sub_tau, w)
        for got, exp, key in [(m.mu_hat_train, R[0][0][:, K], "mu-train"), (tt, R[0][1][:, K], "tau-train")] + ([(m.mu_hat_test, R[1][0][:, K], "mu-test"), (ts, R[1][1][:, K], "tau-test")] if nt else []):
            vf.check(close(got, exp), key, lambda: "%s %s, sampling loop with the same seed gives %s for samples %s" % (key, got[:2], exp[:2], K))
        for on, attr, ref in ((c["sample_sigma_global"], "global_var_samples", R[2]), (c["sample_sigma_leaf_mu"], "leaf_scale_mu_samples", R[3]), (c["sample_sigma_leaf_tau"] and d == 1, "leaf_scale_tau_samples", R[4]), (R[5] is not None, "b0_samples", R[5] and R[5][0]), (R[5] is not None, "b1_samples", R[5] and R[5][1])):
            if on:
                a = np.asarray(getattr(m, attr)); a = a[np.asarray(K)] if len(a) == len(ref) else a; vf.check(close(a, ref[K]), attr, lambda: "%s at the kept samples %s, drawn with those forests %s" % (attr, a, ref[K]))
    vf.check(m.is_sampled() is True, "sampled-flag", "model not marked as sampled"); vf.transition(c["num_gfr"] + c["num_burnin"] + c["num_mcmc"]); vf.outcome(np.round(m.y_hat_train, 6).tolist(), np.round(tt, 6).tolist()); vf.state(tuple(K), kind, zk, pmode, pc, repr(lists)); return m
def switches():
    top = 2 if vf.thorough() else 1; c = dict(num_gfr=vf.choose(top + 2 if vf.thorough() else 3), num_burnin=vf.choose(top + 1), num_mcmc=vf.choose(3)); kg, kb = bool(vf.choose(2)), bool(vf.choose(2)); zk = vf.pick("binary", "continuous", "multi"); c["adaptive_coding"] = zk == "binary" and bool(vf.choose(2)); vs = vf.choose(4); c.update(sample_sigma_global=vs != 0, sample_sigma_leaf_mu=vs in (1, 3), sample_sigma_leaf_tau=vs in (2, 3)); nt = vf.pick(0, 3)
    if sum(c[k] for k in ("num_gfr", "num_burnin", "num_mcmc")) == 0:
        try: run(None, c, kg, kb, "matrix", zk, nt, "one")
        except ValueError: vf.outcome("nothing to sample"); return
        vf.fail("no-samples", "sampling nothing was accepted")
    Gen.start = 0; run(None, c, kg, kb, "matrix", zk, nt, "one")
SCHED = [dict(num_gfr=2, num_burnin=0, num_mcmc=2), dict(num_gfr=0, num_burnin=1, num_mcmc=1), dict(num_gfr=1, num_burnin=0, num_mcmc=0)]
def propensity():
    c = dict(vf.choose(SCHED)); zk = vf.choose(list(Z)); c["propensity_covariate"] = vf.pick("mu", "tau", "both", "none"); pm = vf.pick("one", "two", "none"); nt = vf.pick(0, 1, 3); kind = vf.pick("vector", "matrix", "frame", "text"); ycol = vf.choose(2); c["adaptive_coding"] = bool(vf.choose(2)); Gen.start = vf.choose(3) if vf.thorough() else 1
    if pm == "none":
        if c["propensity_covariate"] != "none": vf.outcome("estimated"); return
        pm = "internal"
    run(None, c, False, False, kind, zk, nt, pm, ycol, single_rows=True)
def internal():
    c = dict(vf.choose(SCHED[:2])); zk = vf.choose(list(Z) if vf.thorough() else ["binary", "continuous", "multi"]); c["propensity_covariate"] = vf.pick("mu", "tau", "both"); nt = vf.pick(0, 2); kind = vf.pick("vector", "matrix", "frame", "text")
    if Z[zk].ndim > 1 and Z[zk].shape[1] > 1:
        try: run(None, c, False, False, kind, zk, nt, "internal")
        except ValueError: vf.outcome("refused"); return
        vf.fail("multivariate-propensity", "propensities of a multivariate treatment were estimated")
    run(None, c, False, False, kind, zk, nt, "internal", single_rows=True)
def settings():
    c = dict(vf.choose(SCHED[:2])); c["num_trees_mu"], c["num_trees_tau"] = vf.pick((1, 1), (3, 2)); c["random_seed"] = vf.pick(1, 2024); zk = vf.pick("binary", "multi"); k = vf.choose(3); c.update([dict(), dict(alpha_mu=0.5, beta_mu=1.5, alpha_tau=0.9, beta_tau=2, min_samples_leaf_mu=3, min_samples_leaf_tau=2, cutpoint_grid_size=2), dict(nu=5, a_leaf_mu=1.5, a_leaf_tau=2.5, b_0=0.0, b_1=1.0)][k])
    if vf.choose(2): c["lamb"] = 0.75
    if vf.choose(2): c["sigma2"] = 0.3
    j = vf.choose(3)
    if j: c["sigma_leaf_tau"] = 0.4 if j == 1 else np.array([[0.4]]) if zk == "binary" else np.array([[0.4, 0.1], [0.1, 0.3]])
    j = vf.choose(3)
    if j: c.update(b_leaf_mu=0.2, sigma_leaf_mu=0.3)
    if j == 2: c.update(b_leaf_tau=0.1, sample_sigma_leaf_tau=True)
    Gen.start = 2; run(None, c, False, False, "matrix", zk, 2, "one")
NAMES = ["c", "a", "o"]
def subsets():
    """keep / drop lists of both forests in every documented form"""
    kind = vf.pick("matrix", "frame"); lists = {}; subs = {}
    for f in ("mu", "tau"):
        how = vf.pick("none", "keep", "drop", "both"); form = vf.choose(["list", "array"] if kind == "matrix" else ["list", "array", "names", "namearray", "objarray"]) if how != "none" else "list"
        sets = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [2, 0]] if vf.thorough() else [[0], [2], [1, 2], [2, 0]]; s = vf.choose(sets) if how != "none" else []
        conv = {"list": lambda v: list(v), "array": lambda v: np.array(v), "names": lambda v: [NAMES[i] for i in v], "namearray": lambda v: np.array([NAMES[i] for i in v]), "objarray": lambda v: np.array([NAMES[i] for i in v], dtype=object)}[form]
        subs[f] = None if how == "none" else sorted(s) if how in ("keep", "both") else [i for i in range(3) if i not in s]
        if how in ("keep", "both"): lists["keep_vars_" + f] = conv(s)
        if how == "drop": lists["drop_vars_" + f] = conv(s)
        if how == "both": lists["drop_vars_" + f] = conv([0])
    w = None if not vf.thorough() else vf.pick(None, np.array([1.0, 3.0, 0.5])); Gen.start = 0
    run(None, dict(num_gfr=1, num_burnin=0, num_mcmc=2, num_trees_mu=3, num_trees_tau=3), False, False, kind, "binary", 0, "one", lists=lists, sub_mu=subs["mu"], sub_tau=subs["tau"], w=w)
def weights():
    w = np.array([vf.pick(0.0, 1.0, 2.5), vf.pick(0.0, 1.0, 0.5), vf.pick(0.0, 1.0, 7.0)]); kind = vf.pick("matrix", "frame")
    if w.sum() == 0: vf.outcome("none"); return
    run(None, dict(num_gfr=1, num_burnin=0, num_mcmc=2, num_trees_mu=3, num_trees_tau=3, propensity_covariate=vf.pick("none", "both")), False, False, kind, vf.pick("binary", "continuous"), 0, "one", w=w, sub_mu=[i for i in range(3) if w[i]], sub_tau=[i for i in range(3) if w[i]])
def again():
    """models sampled repeatedly and side by side: each result is that of a fresh model"""
    ms = [BCFModel(), BCFModel()]
    for k in (0, 1):
        for f in ("predict", "predict_tau"):
            try: getattr(ms[k], f)(np.zeros((2, 3)), np.zeros(2)); vf.fail("predict-unsampled", "%s before sample was accepted" % f)
            except NotSampledError: pass
    for step in range(3 if vf.thorough() else 2):
        k = vf.choose(2) if step else 0; cfg = vf.choose(6); Gen.start = 0
        a = [(SCHED[0], "matrix", "binary", 3, "one"), (dict(SCHED[1], propensity_covariate="none"), "frame", "continuous", 0, "internal"), (dict(SCHED[2], sample_sigma_global=False), "frame", "column", 2, "one"), (dict(SCHED[0], propensity_covariate="both"), "vector", "multi", 1, "two"), (dict(SCHED[1], propensity_covariate="tau"), "matrix", "binary", 2, "internal"), (dict(SCHED[0], sample_sigma_leaf_tau=True, adaptive_coding=False), "frame", "binary", 2, "one")][cfg]
        g = Gen(); ms[k].rng = g; run(ms[k], a[0], False, False, a[1], a[2], a[3], a[4])
def refusals():
    """inputs that do not belong together are refused, on a new model and on a sampled one, which goes on predicting as before"""
    kind = vf.pick("vector", "matrix", "frame"); zk = vf.pick("binary", "continuous", "multi"); pc = vf.pick("both", "mu", "none"); prior = vf.choose(2); X, Xt, Xp, Xtp, ft, orig = inputs(kind, 3); Zt = Z[zk]; Zs = Zt[TI[:3]]; pi, pis = (None, None) if pc == "none" else (PI, PI[TI[:3]]); frame = isinstance(X, pd.DataFrame)
    rows = lambda z, k: None if z is None else (pd.concat([z, z.iloc[:1]]) if k > 0 else z.iloc[:-1]) if isinstance(z, pd.DataFrame) else (np.concatenate([z, z[:1]]) if k > 0 else z[:-1])
    cols = lambda z, k: z.assign(extra=1.0) if isinstance(z, pd.DataFrame) and k > 0 else z.iloc[:, :-1] if isinstance(z, pd.DataFrame) else np.c_[z, np.ones(len(z))] if k > 0 else z[:, :-1] if z.ndim > 1 else None
    c = dict(BASE, num_gfr=1, num_burnin=0, num_mcmc=2, propensity_covariate=pc); m = BCFModel(); pq = () if pi is None else (pi,)
    def fit(X, Zt, y, Xt, Zs, pi, pis):
        m.sample(X, Zt, y, **dict(c, **{k: v for k, v in dict(X_test=Xt, Z_test=Zs, pi_train=pi, pi_test=pis).items() if v is not None}))
    if prior: fit(X, Zt, Y, Xt, Zs, pi, pis); before = m.predict(X, Zt, *pq)
    k = vf.pick(1, -1); what = vf.pick("y rows", "treatment rows", "propensity rows", "test columns", "test treatment rows", "test treatment columns", "test propensity rows", "missing test treatment", "missing test propensities", "test propensity columns", "missing propensities of a multivariate treatment", "number of variable weights", "another treatment and an unknown variable", "unknown variable to keep", "unknown variable to drop", "negative variable weight", "unknown use of the propensity", "predict columns", "predict treatment rows", "predict treatment columns", "predict propensity rows", "predict without propensities", "tau columns", "tau propensity rows", "tau without propensities"); a = [X, Zt, Y, Xt, Zs, pi, pis]; q = None; na = False
    if prior: a[2] = 2 * Y - 5
    if what == "y rows": a[2] = rows(a[2], k)
    elif what == "treatment rows": a[1] = rows(Zt, k)
    elif what == "propensity rows": a[5] = rows(pi, k); na = pi is None
    elif what == "test columns": a[3] = cols(Xt, k); na = a[3] is None
    elif what == "test treatment rows": a[4] = rows(Zs, k)
    elif what == "test treatment columns": a[4] = cols(Zs, k); na = a[4] is None
    elif what == "test propensity rows": a[6] = rows(pis, k); na = pi is None
    elif what == "missing test treatment": a[4] = None; na = k < 0
    elif what == "missing test propensities": a[6] = None; na = pi is None or k < 0
    elif what == "test propensity columns": a[6] = None if pi is None else np.c_[pis, pis]; na = pi is None or k < 0
    elif what.startswith("missing propensities"): a[5] = a[6] = None; a[1], a[4] = Z["multi"], Z["multi"][TI[:3]]; na = pi is None or k < 0
    elif what == "number of variable weights": c["variable_weights"] = np.ones(len(set(orig)) + k)
    elif what.startswith("another treatment"): z = Z["multi" if zk != "multi" else "binary"]; a[1], a[4] = z, z[TI[:3]]; c["keep_vars_mu"] = [17]; na = k < 0
    elif what.startswith("unknown variable"): c["%s_vars_%s" % (what.split()[-1], "mu" if k > 0 else "tau")] = ["nothing"] if frame else [7]
    elif what == "negative variable weight": c["variable_weights"] = np.array([1.0] * (len(set(orig)) - 1) + [-0.5]); na = k < 0
    elif what == "unknown use of the propensity": c["propensity_covariate"] = "mutau" if k > 0 else "neither"
    else:
        f = m.predict if what.startswith("predict") else m.predict_tau; na = not prior
        if what.endswith(" columns") and "treatment" not in what: z = cols(X, k); q = (z, Zt) + pq; na = na or z is None
        elif "treatment columns" in what: z = cols(Zt, k); q = (X, z) + pq; na = na or z is None
        elif "treatment rows" in what: q = (X, rows(Zt, k)) + pq
        elif "propensity rows" in what: q = (X, Zt, rows(pi, k)); na = na or pi is None
        else: q = (X, Zt) if k > 0 else (Xt, Zs); na = na or pi is None or (pc == "mu" and what.startswith("tau"))
    if na: vf.outcome("not applicable"); return
    vf.note("%s covariates, %s treatment, propensity %s, %s %+d, %s" % (kind, zk, pc, what, k, "sampled before" if prior else "new model")); ok = False
    try: f(*q) if q is not None else fit(*a)
    except Exception as e: ok = True; vf.outcome(what, type(e).__name__)
    vf.check(ok, "accepted-" + what.replace(" ", "-"), "inconsistent input accepted: %s (%+d)" % (what, k)); vf.transition(); vf.state(kind, zk, pc, prior, what, k)
    if prior: vf.check(all(close(x, y) for x, y in zip(m.predict(X, Zt, *pq), before)), "predict-after-refusal", "after a refused call (%s) predict gives other values" % what)
    else: vf.check(m.is_sampled() is False, "sampled-flag", "a refused call marks the model as sampled")
vf.main([("refusals", refusals), ("switches", switches), ("propensity", propensity), ("internal", internal), ("settings", settings), ("subsets", subsets), ("weights", weights), ("again", again)])
