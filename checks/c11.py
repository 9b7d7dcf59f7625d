# C11: the Python models are a function of data, settings and random_seed -- whatever ran before, in which process, on which memory
import gc, hashlib, json, os, subprocess, sys, numpy as np, pandas as pd, vfpy as vf
from stochtree import BARTModel, BCFModel, Dataset, Residual, ForestContainer, ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel, NotSampledError
A = np.array([0.5, 2.0, -1.0, 3.5, 0.5, 1.0, 4.0, -2.5, 2.0, 0.25, 1.5, -0.75]); B = np.array([1.0, 0, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1]); CC = list("abcabacbbcaa"); N = 12
Y = np.array([3.0, 9.5, -2.0, 14.0, 2.0, 8.0, 16.5, -7.0, 8.5, 4.0, 5.5, -1.0]); Z = {"binary": np.array([1.0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0]), "continuous": np.array([0.5, -1.0, 2.0, 0.0, 1.5, -0.5, 1.0, 2.5, -2.0, 0.25, 0.75, 1.0])}
Z["multi"] = np.c_[Z["binary"], Z["continuous"]]; PI = np.array([0.3, 0.6, 0.4, 0.7, 0.2, 0.5, 0.8, 0.35, 0.45, 0.65, 0.55, 0.25]); T = [3, 0, 7]
def frame(idx): return pd.DataFrame({"c": pd.Categorical([CC[i] for i in idx], categories=["c", "a", "b"]), "a": A[idx], "s": [CC[-1 - i] for i in idx], "o": pd.Categorical([["lo", "mid", "hi"][int(B[i])] for i in idx], categories=["lo", "mid", "hi"], ordered=True)})
def X(kind, idx): return np.c_[A, B, A * B][idx] if kind == "matrix" else frame(idx)
ALL = list(range(N)); SCHED = [(0, 0, 2), (1, 0, 1), (2, 1, 1), (1, 0, 0)]
class Cfg(dict): pass
def fit(m, g):
    kw = dict(num_gfr=g["sched"][0], num_burnin=g["sched"][1], num_mcmc=g["sched"][2], random_seed=g["seed"])
    if g["model"] == "bart":
        W = {"none": None, "one": A[:, None], "two": np.c_[A, B]}[g["extra"]]; m = m if m is not None else BARTModel()
        m.sample(X(g["kind"], ALL), Y, basis_train=W, X_test=X(g["kind"], T), basis_test=None if W is None else W[T], num_trees=3, min_samples_leaf=1, sample_sigma_leaf=g["extra"] != "two", **kw)
    else:
        z, pm = g["extra"]; m = m if m is not None else BCFModel(); p = {} if pm == "estimated" else dict(pi_train=PI, pi_test=PI[T])
        m.sample(X(g["kind"], ALL), Z[z], Y, X_test=X(g["kind"], T), Z_test=Z[z][T], num_trees_mu=2, num_trees_tau=2, min_samples_leaf_mu=1, min_samples_leaf_tau=1, propensity_covariate="none" if pm == "unused" else "mu", **p, **kw)
    return m
def facts(m, g):
    """everything the fitted model reports"""
    f = {}
    if g["model"] == "bart":
        f = dict(y_train=m.y_hat_train, y_test=m.y_hat_test, sigma=m.global_var_samples, predict=m.predict(X(g["kind"], ALL), {"none": None, "one": A[:, None], "two": np.c_[A, B]}[g["extra"]]))
        if g["extra"] != "two": f["leaf"] = m.leaf_scale_samples
    else:
        z, pm = g["extra"]; f = dict(mu=m.mu_hat_train, tau=m.tau_hat_train, y=m.y_hat_train, mu_t=m.mu_hat_test, tau_t=m.tau_hat_test, y_t=m.y_hat_test, sigma=m.global_var_samples, leaf=m.leaf_scale_mu_samples); P = (X(g["kind"], T), Z[z][T]) + ((PI[T],) if pm == "given" else ()); r = m.predict(*P); f.update(predict0=r[0], predict1=r[1], predict2=r[2])
        if z == "binary": f.update(b0=m.b0_samples, b1=m.b1_samples)
    return {k: np.array(v, dtype=float) for k, v in f.items() if not isinstance(v, tuple)}
def same(a, b): return set(a) == set(b) and all(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=1e-9, atol=1e-11, equal_nan=True) for k in a)
def diff(a, b):
    for k in a:
        if k not in b or a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-9, atol=1e-11, equal_nan=True): return "%s: %s, at first %s" % (k, np.round(b.get(k, np.nan), 5).tolist(), np.round(a[k], 5).tolist())
def pick_cfg(small=False):
    g = Cfg(model=vf.pick("bart", "bcf")); g["extra"] = vf.pick("none", "one", "two") if g["model"] == "bart" else vf.pick(("binary", "given"), ("binary", "estimated"), ("continuous", "unused"), ("multi", "given")); g["kind"] = vf.pick("matrix", "frame"); g["sched"] = vf.choose(SCHED[:2] if small else SCHED); g["seed"] = 7 if small else vf.pick(0, 7, 123456); return g
def all_cfgs():
    return [Cfg(model=m, extra=e, kind=k, sched=s, seed=7) for m, es in (("bart", ["none", "one", "two"]), ("bcf", [("binary", "given"), ("binary", "estimated"), ("continuous", "unused"), ("multi", "given")])) for e in es for k in ("matrix", "frame") for s in SCHED]
OTHER = [Cfg(model="bart", extra="none", kind="matrix", sched=(2, 0, 1), seed=5), Cfg(model="bart", extra="two", kind="frame", sched=(0, 1, 2), seed=7), Cfg(model="bcf", extra=("binary", "given"), kind="frame", sched=(1, 0, 2), seed=7), Cfg(model="bcf", extra=("continuous", "unused"), kind="matrix", sched=(0, 0, 1), seed=5), Cfg(model="bcf", extra=("multi", "given"), kind="matrix", sched=(1, 1, 1), seed=9)]
def disturb(k):
    """things that may have happened in the process before"""
    if k == 1: np.random.seed(1); np.random.rand(3); import random; random.seed(4)
    elif 2 <= k <= 6: fit(None, OTHER[k - 2])
    elif k == 7:
        try: BARTModel().sample(X("matrix", ALL), Y[:3])
        except Exception: pass
        try: BCFModel().predict(X("matrix", T), PI[T])
        except Exception: pass
        junk = [bytearray(b"\xff" * n) for n in (24, 100, 1000, 5000) for _ in range(50)]; del junk; gc.collect()
REF = {}
def reference(g):
    k = repr(g)
    if k not in REF: REF[k] = facts(fit(None, g), g)
    return REF[k]
def repeat():
    g = pick_cfg(); k = vf.choose(8); a = reference(g); disturb(k); b = facts(fit(None, g), g); vf.transition(2); vf.check(same(a, b), "repeat", lambda: "%s after disturbance %d: %s" % (dict(g), k, diff(a, b))); vf.state(repr(g), k); vf.outcome(repr(np.round(a["sigma"], 9).tolist()))
def reuse():
    """the same model object sampled with something else (or the same) before"""
    g = pick_cfg(True); prev = [o for o in OTHER if o["model"] == g["model"]] + [g]; n = 1 + vf.choose(2); seq = [vf.choose(prev) for _ in range(n)]; a = reference(g); m = None
    for o in seq: m = fit(m, o)
    m = fit(m, g); b = facts(m, g); vf.transition(n + 1); vf.check(same(a, b), "reuse", lambda: "%s on an object sampled before with %s: %s" % (dict(g), [dict(o) for o in seq], diff(a, b))); vf.state(repr(g), repr(seq)); vf.outcome(repr(seq))
class Low:
    """one low-level sampler over its own objects"""
    def __init__(self, k, seed):
        self.k = k; self.d = [1, 1, 2][k]; self.ds = Dataset(); self.ds.add_covariates(np.c_[A, B, A * B])
        if k: self.ds.add_basis(np.c_[A, B + 1][:, :self.d])
        y = Y - Y.mean(); self.res = Residual((y / y.std())[:, None]); self.rng = RNG(seed); self.ft = np.array([0, 1, 0] if k != 1 else [0, 2, 0]); self.ft[self.ft == 2] = 1; self.s = ForestSampler(self.ds, self.ft, 3, N, 0.95, 1.0, 1); self.c = ForestContainer(3, self.d, k == 0); self.g = GlobalVarianceModel(); self.l = LeafVarianceModel(); self.s2 = 0.5; self.tau = np.eye(self.d) * 0.4; self.out = []; self.m = 0
    def step(self, o):
        if o in "MG": self.m += 1; self.s.sample_one_iteration(self.c, self.ds, self.res, self.rng, self.ft, 100, self.tau, np.ones(3) / 3, self.s2, self.k, o == "G", False)
        elif o == "V": self.s2 = self.g.sample_one_iteration(self.res, self.rng, 3, 0.5)
        elif self.d == 1 and self.n(): self.tau = np.array([[self.l.sample_one_iteration(self.c, self.rng, 3, 0.5, self.n() - 1)]])
        self.out.append(self.digest())
    def n(self): return self.m
    def digest(self):
        n = self.m
        return (n, self.s2, self.tau.tolist(), self.c.predict(self.ds).tolist() if n else None)
SOLO = {}
def interleave():
    k1, k2 = vf.choose(3), vf.choose(3); a = "".join(vf.pick("M", "G") if i == 0 else vf.pick("M", "G", "V", "L") for i in range(3)); b = vf.pick("GVM", "MLG"); s2 = vf.pick(5, 6); A_, B_ = Low(k1, 5), Low(k2, s2); i = j = 0; order = ""
    def solo(k, s, o):
        if (k, s, o) not in SOLO:
            l = Low(k, s)
            for x in o: l.step(x)
            SOLO[k, s, o] = l.out
        return SOLO[k, s, o]
    while i < 3 or j < 3:
        w = 1 if i == 3 else 0 if j == 3 else vf.choose(2)
        if w: order += "[%s]" % b[j]; B_.step(b[j]); j += 1
        else: order += a[i]; A_.step(a[i]); i += 1
        vf.transition()
    vf.check(A_.out == solo(k1, 5, a), "interleaving", lambda: "sampler 1 (leaf model %d, %s) differs when interleaved as %s with leaf model %d" % (k1, a, order, k2)); vf.check(B_.out == solo(k2, s2, b), "interleaving", lambda: "sampler 2 (leaf model %d, %s) differs when interleaved as %s with leaf model %d" % (k2, b, order, k1)); vf.state(k1, k2, order, s2); vf.outcome(A_.out[-1][1])
ENVS = [dict(PYTHONHASHSEED="1"), dict(PYTHONHASHSEED="77", MALLOC_PERTURB_="165", GLIBC_TUNABLES="glibc.malloc.perturb=165:glibc.malloc.tcache_count=0"), dict(PYTHONHASHSEED="5", GLIBC_TUNABLES="glibc.malloc.perturb=1:glibc.malloc.tcache_count=0", MALLOC_PERTURB_="1")]
def digests(i): return [(dict(g), {k: v.tolist() for k, v in facts(fit(None, g), g).items()}) for g in all_cfgs()[i::8]]
def processes():
    """fresh processes with other hash seeds and other contents of fresh memory"""
    e = vf.choose(ENVS); i = vf.choose(8); p = subprocess.run([sys.executable, os.path.abspath(__file__), "--digest", str(i)], env=dict(os.environ, **e), capture_output=True, text=True); vf.check(p.returncode == 0, "process", "a fresh process failed: %s" % p.stderr[-400:]); got = json.loads(p.stdout)
    for (g, f) in got:
        g = Cfg(g); g["sched"] = tuple(g["sched"]); g["extra"] = tuple(g["extra"]) if isinstance(g["extra"], list) else g["extra"]; a = reference(g); b = {k: np.array(v, dtype=float) for k, v in f.items()}; vf.transition(); vf.check(same(a, b), "process", lambda: "%s in a process with %s: %s" % (dict(g), e, diff(a, b))); vf.state(repr(g), repr(e))
    vf.outcome(i)
if "--digest" in sys.argv: import warnings; warnings.simplefilter("ignore"); print(json.dumps(digests(int(sys.argv[sys.argv.index("--digest") + 1])))); sys.exit(0)
vf.main([("repeat", repeat), ("reuse", reuse), ("interleave", interleave), ("processes", processes)])
