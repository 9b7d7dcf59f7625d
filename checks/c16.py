# C16: the Python covariate transformer -- every column kind and combination, level structure, call history and array
import itertools, warnings, numpy as np, pandas as pd, vfpy as vf
from stochtree import CovariateTransformer
BASE = pd.Timestamp("2024-01-01")
def cat(ordered, levels): return lambda v: pd.Series(pd.Categorical(v, categories=levels, ordered=ordered))
# kind -> (pool of values, series maker, how the column is encoded)
KINDS = {
 "float": ([1.5, -0.25, 3e10], lambda v: pd.Series(v, dtype="float64"), "num"), "float32": ([0.5, 2.25, -7.0], lambda v: pd.Series(v, dtype="float32"), "num"), "Float64": ([0.1, 5.0, -2.0], lambda v: pd.Series(v, dtype="Float64"), "num"),
 "floatnan": ([1.0, float("nan"), -2.0], lambda v: pd.Series(v, dtype="float64"), "num"), "int": ([3, -1, 7], lambda v: pd.Series(v, dtype="int64"), "num"), "uint8": ([0, 200, 5], lambda v: pd.Series(v, dtype="uint8"), "num"), "Int64": ([2, 2**40, -5], lambda v: pd.Series(v, dtype="Int64"), "num"),
 "bool": ([True, False, True], lambda v: pd.Series(v, dtype="bool"), "bool"), "boolean": ([False, True, True], lambda v: pd.Series(v, dtype="boolean"), "bool"),
 "cat": (["b", "a", "c"], cat(False, ["c", "a", "d", "b"]), "onehot"), "catint": ([10, 2, 7], cat(False, [7, 10, 2]), "onehot"), "catone": (["z", "z", "z"], cat(False, ["z"]), "onehot"),
 "ord": (["lo", "hi", "mid"], cat(True, ["lo", "mid", "hi", "top"]), "ordinal"), "ordone": (["q", "q", "q"], cat(True, ["q"]), "ordinal"),
 "string": (["y", "x", "y"], lambda v: pd.Series(v, dtype="string"), "onehot"),
 "datetime": ([BASE, BASE + pd.Timedelta(1, "D"), BASE], lambda v: pd.Series(v), "ignored"), "object": (["p", "q", "p"], lambda v: pd.Series(v, dtype=object), "ignored"), "period": ([pd.Period("2024-01", "M")] * 3, lambda v: pd.Series(v, dtype="period[M]"), "ignored")}
def levels_of(s): return s.array.categories.to_list() if isinstance(s.dtype, pd.CategoricalDtype) else sorted(set(s.to_list()))
def encoder(s, enc):
    """(feature types, function value -> list of numbers) of one fitted column"""
    if enc == "ignored": return [], lambda v: []
    if enc == "num": return [0], lambda v: [float(v)]
    if enc == "bool": return [1], lambda v: [1.0 if v else 0.0]
    L = levels_of(s)
    if enc == "ordinal": return [1], lambda v: [float(L.index(v))]
    return [1] * len(L), lambda v: [1.0 if v == l else 0.0 for l in L]
def frame(cols):
    d = pd.concat([s.reset_index(drop=True) for s in cols], axis=1); d.columns = ["x%d" % i for i in range(len(cols))]; return d
def expected(encs, rows): return np.array([[z for (_, f), v in zip(encs, r) for z in f(v)] for r in rows], dtype=float).reshape(len(rows), sum(len(e[0]) for e in encs))
def orig(encs): return [i for i, e in enumerate(encs) for _ in e[0]]
def verify(t, out, encs, rows, what):
    E = expected(encs, rows); out = np.asarray(out)
    vf.check(out.shape == E.shape, "shape", lambda: "%s: processed matrix has shape %s, expected %s" % (what, out.shape, E.shape))
    vf.check(np.array_equal(out.astype(float), E, equal_nan=True), "values", lambda: "%s: processed matrix\n%s\nexpected\n%s" % (what, out, E))
    ft = [int(z) for z in t._processed_feature_types]; ex = [z for e in encs for z in e[0]]
    vf.check(ft == ex, "feature-types", lambda: "%s: feature types %s, expected %s" % (what, ft, ex))
    oi = [int(z) for z in t.fetch_original_feature_indices()]
    vf.check(oi == orig(encs), "original-indices", lambda: "%s: original indices %s, expected %s" % (what, oi, orig(encs)))
TESTS = [("train", [0, 1, 2]), ("row0", [0]), ("row1", [1]), ("row2", [2]), ("reversed", [2, 1, 0]), ("repeated", [0, 0, 2, 1, 2])]
def restyle(s, vals, enc, style):
    """test column: same dtype as in training, levels in another order / only those present, or plain values"""
    if style == 0 or enc not in ("onehot", "ordinal") or not isinstance(s.dtype, pd.CategoricalDtype): return None
    L = s.array.categories.to_list(); o = bool(s.array.ordered)
    if style == 1: return pd.Series(pd.Categorical(vals, categories=L[::-1], ordered=o))
    if style == 2: return pd.Series(pd.Categorical(vals, categories=sorted(set(vals)), ordered=o))
    return pd.Series(vals)
def columns_of(names):
    mk = [KINDS[k] for k in names]; rows = [[m[0][(i + j) % 3] for j, m in enumerate(mk)] for i in range(3)]; cols = [m[1]([r[j] for r in rows]) for j, m in enumerate(mk)]; encs = [encoder(s, m[2]) for s, m in zip(cols, mk)]
    lean = len(names) == 3 and not vf.thorough(); name, idx = vf.choose(TESTS[2::2] if lean else TESTS); style = vf.choose(4); two_step = lean or vf.choose(2); df = frame(cols); keep = df.copy(deep=True); t = CovariateTransformer()
    vf.note("columns %s, test rows %s, style %d, %s" % (names, name, style, ["fit_transform", "fit then transform"][two_step]))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if two_step: t.fit(df); out = t.transform(df)
        else: out = t.fit_transform(df)
    ign = [m[2] for m in mk].count("ignored"); msgs = [z for z in w if "unsupported by stochtree" in str(z.message)]
    vf.check(bool(msgs) == (ign > 0), "warning", lambda: "%d columns ignored, %d warnings" % (ign, len(msgs)))
    verify(t, out, encs, rows, "training frame")
    trows = [rows[i] for i in idx]; tcols = [restyle(s, [r[j] for r in trows], m[2], style) for j, (s, m) in enumerate(zip(cols, mk))]
    tdf = frame([z if z is not None else m[1]([r[j] for r in trows]) for j, (z, m) in enumerate(zip(tcols, mk))]); tkeep = tdf.copy(deep=True)
    verify(t, t.transform(tdf), encs, trows, "test frame %s" % name); verify(t, t.transform(df), encs, rows, "training frame again")
    pd.testing.assert_frame_equal(df, keep); pd.testing.assert_frame_equal(tdf, tkeep); vf.transition(4); vf.state(names, name, style); vf.outcome(expected(encs, trows).tolist())
def columns_1(): columns_of([vf.choose(list(KINDS))])
def columns_2(): columns_of([vf.choose(list(KINDS)) for _ in range(2)])
SMALL = ["float", "int", "bool", "cat", "ord", "string", "object"]
def columns_3(): columns_of([vf.choose(list(KINDS) if vf.thorough() else SMALL) for _ in range(3)])
LEVELS = {"str": ["b", "a", "c", "dd"], "int": [5, 1, 3, 10], "float": [0.5, -1.25, 2.0, 7.5], "bool": [True, False]}
UNSEEN = {"str": "zz", "int": 99, "float": 99.5}
def levels():
    ty = vf.choose(list(LEVELS)); k = 1 + vf.choose(min(len(LEVELS[ty]), 4 if vf.thorough() else 3)); kind = vf.pick("onehot", "ordinal", "string") if ty == "str" else vf.pick("onehot", "ordinal"); L = LEVELS[ty][:k]; n = 1 + vf.choose(4 if vf.thorough() else 3)
    vals = [L[vf.choose(k)] for _ in range(n)]; pos = vf.choose(2)
    mk = (lambda v: pd.Series(v, dtype="string")) if kind == "string" else cat(kind == "ordinal", L)
    s = mk(vals); num = pd.Series([i * 1.5 - 1 for i in range(n)]); cols = [num, s] if pos else [s, num]; encs = [encoder(num, "num"), encoder(s, "ordinal" if kind == "ordinal" else "onehot")]; encs = encs if pos else encs[::-1]
    df = frame(cols); t = CovariateTransformer(); out = t.fit_transform(df); verify(t, out, encs, [[a, b] if pos else [b, a] for a, b in zip(num.to_list(), vals)], "fit on %s levels %s values %s" % (kind, L, vals)); vf.transition()
    known = levels_of(s); pool = known + ([UNSEEN[ty]] if ty in UNSEEN else [])
    for m in (1, 2):
        for tv in itertools.product(pool, repeat=m):
            tv = list(tv); tnum = pd.Series([9.25 + i for i in range(m)]); seen = all(v in known for v in tv)
            for style in (["string"] if kind == "string" else ["declared", "reversed", "present", "plain"]):
                if style == "declared": ts = pd.Series(pd.Categorical(tv, categories=L if seen else L + [UNSEEN[ty]], ordered=kind == "ordinal"))
                elif style == "reversed": ts = pd.Series(pd.Categorical(tv, categories=(L if seen else L + [UNSEEN[ty]])[::-1], ordered=kind == "ordinal"))
                elif style == "present": ts = pd.Series(pd.Categorical(tv, categories=sorted(set(tv)), ordered=kind == "ordinal"))
                elif style == "string": ts = pd.Series(tv, dtype="string")
                else: ts = pd.Series(tv)
                tdf = frame([tnum, ts] if pos else [ts, tnum]); vf.transition(); vf.state(ty, kind, tuple(vals), tuple(tv), style)
                if seen: verify(t, t.transform(tdf), encs, [[a, b] if pos else [b, a] for a, b in zip(tnum.to_list(), tv)], "levels %s (%s) fitted on %s, test %s %s" % (L, kind, vals, tv, style))
                else:
                    try: o = t.transform(tdf)
                    except Exception: vf.count("unseen level reported"); continue
                    sl = slice(1, None) if pos else slice(0, o.shape[1] - 1)
                    for r, v in enumerate(tv):
                        if v in known: continue
                        z = o[r, sl]; bad = (np.nansum(np.abs(z)) != 0) if kind != "ordinal" else (z[0] in [float(i) for i in range(len(known))])
                        vf.check(not bad, "unseen-level", "level %r, absent from training, is encoded as a trained level: %s" % (v, z))
    vf.outcome(ty, kind, k, n)
# call histories: what a transform returns depends on the latest fit only
def F(names, rot=0, n=3):
    mk = [KINDS[k] for k in names]; rows = [[m[0][(i + j + rot) % 3] for j, m in enumerate(mk)] for i in range(n)]; cols = [m[1]([r[j] for r in rows]) for j, m in enumerate(mk)]
    return dict(data=frame(cols), rows=rows, encs=[encoder(s, m[2]) for s, m in zip(cols, mk)], schema=tuple(names))
def N(a): a = np.array(a, dtype=float); return dict(data=a, rows=[list(r) for r in a], encs=[([1 if len(set(a[:, j])) == 2 else 0], lambda v: [float(v)]) for j in range(a.shape[1])], schema=("numpy", a.shape[1]))
FRAMES = [F(["float", "cat"]), F(["float", "cat"], 1, 1), F(["ord", "int"]), F(["cat", "ord"]), N([[0., 1.5], [1., 2.5], [1., 4.]]), N([[7., 1.], [7., 2.]]), F(["string", "bool", "float"])]
def history():
    depth = 4 if vf.thorough() else 3; ts = [CovariateTransformer(), CovariateTransformer()]; fit = [None, None]; done = []
    for step in range(depth):
        w = vf.choose(2) if step else 0; op = vf.pick("fit_transform", "transform", "fit"); fi = vf.choose(len(FRAMES) if depth == 3 or step < 2 else 5); f = FRAMES[fi]; t = ts[w]; done.append((w, op, fi)); vf.transition()
        if op != "transform": fit[w] = f
        if op == "fit": t.fit(f["data"]); continue
        g = fit[w]; ok = g is not None and g["schema"] == f["schema"]
        if op == "fit_transform": verify(t, t.fit_transform(f["data"]), f["encs"], f["rows"], "history %s" % done)
        elif ok: verify(t, t.transform(f["data"]), g["encs"], f["rows"], "history %s" % done)
        else:
            must = g is None or len(g["schema"]) != len(f["schema"]) and "numpy" not in g["schema"] + f["schema"]
            try: t.transform(f["data"]); err = False
            except Exception: err = True
            vf.check(err or not must, "transform-accepted", "history %s: transform of data of another width, or before any fit, is accepted" % done)
        for o in range(2):
            if fit[o] is not None and o != w: verify(ts[o], ts[o].transform(fit[o]["data"]), fit[o]["encs"], fit[o]["rows"], "the other transformer after history %s" % done)
    vf.state(tuple(done)); vf.outcome(len(done), tuple(d[1] for d in done))
# numpy arrays
def arrays():
    n, p = 1 + vf.choose(3), 1 + vf.choose(2); dt = vf.pick("float64", "float32", "int64", "uint8", "bool"); pool = [0, 1] if dt == "bool" else ([0, 1, 2.5] if "float" in dt else [0, 1, 7])
    a = np.array([pool[vf.choose(len(pool))] for _ in range(n * p)], dtype=dt).reshape(n, p); lay = vf.pick("C", "F", "strided") if p > 1 else vf.pick("C", "1d", "strided")
    if lay == "F": b = np.asfortranarray(a)
    elif lay == "strided": b = np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
    elif lay == "1d": b = a[:, 0].copy()
    else: b = a
    t = CovariateTransformer(); keep = b.copy(); encs = [([1 if len(set(a[:, j].tolist())) == 2 else 0], lambda v: [float(v)]) for j in range(p)]
    verify(t, t.fit_transform(b), encs, a.tolist(), "array %s %s" % (dt, lay)); m = np.full((2, p), 9, dtype=float); verify(t, t.transform(m), encs, m.tolist(), "test array"); verify(t, t.transform(pd.DataFrame(m)), encs, m.tolist(), "test frame after an array")
    vf.check(np.array_equal(keep, b), "input-modified", "the array handed in was modified"); vf.transition(3); vf.state(dt, lay, a.tolist()); vf.outcome(dt, encs[0][0][0])
def rejected():
    what, v = vf.pick(("object", np.array([["a", 1.0], ["b", 2.0]], dtype=object)), ("string", np.array([["a"], ["b"]])), ("datetime", np.array([["2024-01-01"]], dtype="datetime64[D]")), ("3-d", np.zeros((2, 2, 2))), ("list", [[1.0, 2.0]]), ("complex", np.array([[1 + 2j]])))
    t = CovariateTransformer(); op = vf.pick("fit", "fit_transform")
    try: getattr(t, op)(v); ok = False
    except ValueError: ok = True
    vf.check(ok, "accepted-" + what, "%s input is accepted although columns must be simple numeric types" % what); vf.transition(); vf.state(what, op)
    w = vf.pick(np.zeros((2, 1)), np.zeros((2, 3)), pd.DataFrame({"a": [1.0]})); t = CovariateTransformer(); t.fit(np.zeros((3, 2)))
    try: t.transform(w); ok = False
    except ValueError: ok = True
    vf.check(ok, "width", "transform accepts data of another width")
def width_frame():  # frames whose columns start like, or are a prefix of, the training frame's
    names = [vf.choose(SMALL[:6]) for _ in range(2)]; d = vf.choose(2); f = F(names)["data"]; t = CovariateTransformer(); t.fit(f); extra = F(names + [vf.choose(SMALL[:6])])["data"] if d else F(names[:1])["data"]
    try: t.transform(extra); ok = False
    except Exception: ok = True
    vf.check(ok, "width-frame", lambda: "fitted on %s, transform accepts a frame of %d columns" % (names, extra.shape[1]))
vf.main([("one_column", columns_1), ("two_columns", columns_2), ("three_columns", columns_3), ("levels", levels), ("history", history), ("arrays", arrays), ("rejected", rejected), ("width_frame", width_frame)])
