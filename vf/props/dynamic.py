"""Y01-Y04 (dynamic structure learning and the lag transformer)."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import mods
from ..core import many_rows, Leg, Prop, expect_raises
from ..num import Optimum, confirmed, same_edges

VARS = ["b", "a", "zz", "Z", "c_1", "7", "10", "9", 3, 0, 1, 2, 11, "", "é", "x y", "Lag0", "weight"]


def make_series(c):
    """(X, Xlags) of a compact case, from one simulated stationary series."""
    r = np.random.RandomState(c["seed"])
    d, p, n = c["d"], c["p"], c["n"]
    order = r.permutation(d)
    W = np.zeros((d, d))
    for a in range(d):
        for b in range(a + 1, d):
            if r.rand() < c["dens"]:
                W[order[a], order[b]] = r.choice([-1, 1]) * r.uniform(0.5, 1.5)
    A = [np.where(r.rand(d, d) < c["dens"], r.choice([-1, 1], size=(d, d)) * r.uniform(0.2, 0.5, size=(d, d)), 0) / (d * (k + 1)) ** 0.5 for k in range(p)]
    inv = np.linalg.inv(np.eye(d) - W)
    T = n + p
    X = np.zeros((T + 20, d))
    for t in range(p, T + 20):
        X[t] = np.clip((sum(X[t - k - 1] @ A[k] for k in range(p)) + r.randn(d)) @ inv, -50, 50)
    X = X[20:] * c.get("scale", 1)
    for k in c.get("const", []):
        X[:, k % d] = 1.0
    L = np.hstack([X[p - k - 1:T - k - 1] for k in range(p)])
    dt = c.get("dtype", "float64")
    if dt.startswith("int"):
        X, L = np.round(X * 4), np.round(L * 4)
        X, L = np.clip(X, -120, 120), np.clip(L, -120, 120)
    return X[p:].astype(dt), L.astype(dt)


LAGS = st.sampled_from([1, 2, 3] * 6 + [11])


def series_strategy(dmax=3, dtypes=("float64",)):
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10 ** 6), "d": st.integers(1, dmax), "p": LAGS, "n": st.sampled_from([12, 30, 60]),
        "dens": st.sampled_from([0.0, 0.5, 1.0]), "scale": st.sampled_from([1, 1, 0.3, 3]), "dtype": st.sampled_from(list(dtypes)),
        "const": st.lists(st.integers(0, dmax - 1), max_size=1) | st.just([])})


@st.composite
def tabu(draw, d, p):
    trip = st.tuples(st.integers(0, p), st.integers(0, d - 1), st.integers(0, d - 1))
    return {"te": draw(st.none() | st.lists(trip, max_size=6)),
            "tp": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=1)),
            "tc": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=1))}


def kwargs(c, names=None, thr=None):
    tr = (lambda k: k) if names is None else (lambda k: names[k])
    kw = {}
    for k, a in (("lw", "lambda_w"), ("la", "lambda_a"), ("max_iter", "max_iter"), ("h_tol", "h_tol"), ("thr", "w_threshold")):
        if c.get(k) is not None:
            kw[a] = c[k]
    if thr is not None:
        kw["w_threshold"] = thr
    if c.get("te") is not None:
        kw["tabu_edges"] = [(l, tr(u), tr(v)) for l, u, v in c["te"]]
    if c.get("tp") is not None:
        kw["tabu_parent_nodes"] = [tr(u) for u in c["tp"]]
    if c.get("tc") is not None:
        kw["tabu_child_nodes"] = [tr(u) for u in c["tc"]]
    return kw


def _run(f, args, kw):
    before = copy.deepcopy(kw)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        g = f(*args, **kw)
    if repr(before) != repr(kw):
        raise AssertionError("the constraint lists were changed from %r to %r" % (before, kw))
    return g, sum("converge" in str(w.message).lower() for w in ws)


def learn(m, X, L, c, thr=None):
    return _run(m.from_numpy_dynamic, (X, L), kwargs(c, thr=thr))


def matrices(g, d, p):
    """Intra- and inter-slice matrices (A[lag]) read back from a structure with numeric node names."""
    W, A = np.zeros((d, d)), np.zeros((p, d, d))
    for u, v, w in g.edges.data("weight"):
        i, l = map(int, u.split("_lag"))
        j, z = map(int, v.split("_lag"))
        if z == 0 and l == 0:
            W[i, j] = w
        elif z == 0:
            A[l - 1, i, j] = w
    return W, A


# ---------------------------------------------------------------- Y01
@st.composite
def y01_case(draw, wide=False):
    c = draw(series_strategy(dtypes=["float64", "float64", "int64"]))
    if wide:
        c.update(d=draw(st.integers(11, 12)), p=1, n=30, dens=0.2)
    if c["p"] > 3:
        c["d"] = min(c["d"], 2)
    c.update(draw(tabu(c["d"], c["p"])))
    c.update(lw=draw(st.sampled_from([None, 0, 0.01, 0.05, 0.3])), la=draw(st.sampled_from([None, 0, 0.01, 0.05, 0.3])),
             thr=draw(st.sampled_from([None, 0, 0.01, 0.1, 0.4])), max_iter=draw(st.sampled_from([1] if wide else [None, 2, 5])),
             pandas=draw(st.booleans()), names=draw(st.permutations(VARS))[:c["d"]])
    return c


def check_y01(c, ctx):
    m = mods.get("structure.dynotears")
    d, p = c["d"], c["p"]
    X, L = make_series(c)
    snap = X.copy(), L.copy()
    thr = c["thr"] or 0
    try:
        if c["pandas"]:
            import pandas as pd
            names = [str(v) for v in c["names"]]
            full_x = np.vstack([L[0, k * d:(k + 1) * d] for k in range(p - 1, -1, -1)] + [X])
            df = pd.DataFrame(full_x, columns=list(c["names"]))
            g, _ = _run(m.from_pandas_dynamic, (df, p), kwargs(c, names=c["names"]))
            full, _ = _run(m.from_pandas_dynamic, (df, p), kwargs(c, names=c["names"], thr=0))
        else:
            names = [str(k) for k in range(d)]
            g, _ = learn(m, X, L, c)
            full, _ = learn(m, X, L, c, thr=0)
    except AssertionError as e:
        ctx.fail(str(e))
    ctx.require((X == snap[0]).all() and (L == snap[1]).all(), "the data matrices were changed")
    lab = {"%s_lag%d" % (v, l): (i, l) for i, v in enumerate(names) for l in range(p + 1)}
    for what, s in (("learned structure", g), ("structure learned with threshold 0", full)):
        ctx.require(set(s.nodes) == set(lab), lambda: "%s has nodes %r, expected %r" % (what, sorted(s.nodes), sorted(lab)))
        for u, v, w in s.edges.data("weight"):
            (i, l), (j, z) = lab[u], lab[v]
            e = "%s has the edge %s->%s (weight %r)" % (what, u, v, w)
            ctx.require(w is not None and np.isfinite(w), e)
            ctx.require(z == 0, lambda: e + ", which ends in the past")
            ctx.require(l > 0 or i != j, lambda: e + ", a self-loop")
            ctx.require((l, i, j) not in (c["te"] or []), lambda: e + ", which is tabu %r" % (c["te"],))
            ctx.require(i not in (c["tp"] or []), lambda: e + " out of a tabu parent")
            ctx.require(j not in (c["tc"] or []), lambda: e + " into a tabu child")
            if s is g:
                ctx.require(abs(w) >= thr, lambda: e + ", below the threshold %r" % thr)
    got = {(u, v): w for u, v, w in g.edges.data("weight")}
    want = {(u, v): w for u, v, w in full.edges.data("weight") if abs(w) >= thr}
    ctx.require(same_edges(got, want, skip=lambda w: abs(abs(w) - thr) < 1e-6 or w == 0),
                lambda: "threshold %r gives the edges %r; without it the edges that strong are %r" % (thr, got, want))
    ctx.label("lag order %d" % p)
    ctx.label("pandas", c["pandas"])
    ctx.label("lagged edges", any(lab[u][1] > 0 for u, _ in got))
    ctx.label("intra-slice edges", any(lab[u][1] == 0 for u, _ in got))
    ctx.nontrivial(bool(full.number_of_edges()) and bool(c["te"] or c["tp"] or c["tc"] or thr))


# ---------------------------------------------------------------- Y02
@st.composite
def y02_case(draw, wide=False):
    c = draw(series_strategy(dmax=4, dtypes=["float64", "float64", "int64", "int8"]))
    if wide:
        c.update(d=draw(st.integers(5, 11)), p=draw(st.integers(1, 2)))
    if c["p"] > 3:
        c["d"] = min(c["d"], 2)
    d, p = c["d"], c["p"]
    c["n"] = max(c["n"], draw(st.sampled_from([4, 4, 2])) * d * (p + 1))
    c.update(lw=draw(st.sampled_from([None, 0, 0.01, 0.1, 0.5])), la=draw(st.sampled_from([None, 0, 0.01, 0.1, 0.5])), order=draw(st.permutations(range(d))),
             drop=draw(st.lists(st.tuples(st.integers(0, p), st.integers(0, d - 1), st.integers(0, d - 1)), max_size=5)),
             tp=draw(st.none() | st.lists(st.integers(0, d - 1), max_size=1)), tc=draw(st.none() | st.lists(st.integers(0, d - 1), max_size=1)))
    return c


def check_y02(c, ctx):
    m = mods.get("structure.dynotears")
    d, p = c["d"], c["p"]
    X, L = make_series(c)
    pos = {v: k for k, v in enumerate(c["order"])}
    c["te"] = [(0, i, j) for i in range(d) for j in range(d) if i != j and pos[i] > pos[j]] + list(c["drop"])
    g, warned = learn(m, X, L, c)
    ctx.require(not warned, "dynamic learning with an imposed ordering reports that it failed to converge")
    W, A = matrices(g, d, p)
    lw = 0.1 if c["lw"] is None else c["lw"]
    la = 0.1 if c["la"] is None else c["la"]
    pen = np.array([lw] * d + [la] * (d * p), dtype=float)

    def optimum(X, L, W, A):
        Z = np.hstack([X, L]).astype(float)
        full = np.vstack([W] + [A[k] for k in range(p)])
        opt = Optimum()
        for j in range(d):
            ok = [k for k in range(d * (p + 1)) if not (k == j or (k // d, k % d, j) in c["te"] or (k % d) in (c["tp"] or []) or j in (c["tc"] or []))]
            opt.add(Z[:, ok], Z[:, j], pen[ok], full[ok, j], penalised=True)
        return opt
    opt = optimum(X, L, W, A)
    if not opt.ok():
        again = confirmed(lambda x, l: optimum(x, l, *matrices(learn(m, x, l, c)[0], d, p)).ok(), X, L)
        ctx.label("optimiser stopped early once", again)
        ctx.require(again, lambda: "lambda_w=%r, lambda_a=%r, tabu edges %r: %s" % (lw, la, c["te"], opt.text()))
    ctx.label("well conditioned", opt.well_conditioned())
    ctx.label("lag order %d" % p)
    ctx.label("dtype %s" % c["dtype"])
    ctx.nontrivial(p > 1 and bool((A != 0).any()) or bool((W != 0).any()))


# ---------------------------------------------------------------- Y03 / Y04: series of tables
@st.composite
def realisations(draw, dmax=4, long=False, wide=False, many=False):
    d = draw(st.integers(1, dmax) if not wide else st.integers(11, 13))
    p = draw(LAGS if not wide else st.integers(1, 2))
    if p > 3:
        d, long = min(d, 2), True
    reals = []
    for _ in range(draw(st.integers(1, 3) if not many else st.sampled_from([1, 2, 12]))):
        start = draw(st.integers(-3, 30))
        if long:
            steps = draw(st.lists(st.sampled_from([15, 25]), min_size=1, max_size=2))
        elif many:
            steps = draw(st.lists(st.integers(1, 4), min_size=8, max_size=16))
        else:
            steps = draw(st.lists(st.integers(1, 6), min_size=1, max_size=4))
        gaps = [draw(st.sampled_from([2, 2, 3, 10])) for _ in steps]
        reals.append({"start": start, "segs": steps, "gaps": gaps})
    return {"d": d, "p": p, "reals": reals, "seed": draw(st.integers(0, 10 ** 6)), "names": list(draw(st.permutations(VARS))[:d]),
            "dtype": draw(st.sampled_from(["float64", "float64", "int64", "float32", "mixed"])), "single": draw(st.booleans())}


def frames(c, distinct=False):
    import pandas as pd
    r = np.random.RandomState(c["seed"])
    out, k = [], 0
    for real in c["reals"]:
        idx, t = [], real["start"]
        for s, gp in zip(real["segs"], real["gaps"]):
            idx += list(range(t, t + s))
            t = t + s - 1 + gp
        cols = {}
        vals = np.zeros((len(idx), c["d"]))
        for row in range(len(idx)):
            for j in range(c["d"]):
                vals[row, j] = k if distinct else r.randn() + (0.5 * vals[row - 1, j] if row else 0) + (0.7 * vals[row, j - 1] if j else 0)
                k += 1
        for j, v in enumerate(c["names"]):
            col = vals[:, j]
            if c["dtype"] == "int64" or (c["dtype"] == "mixed" and j % 2):
                col = np.round(col if distinct else col * 5).astype("int64")
            elif c["dtype"] == "float32":
                col = col.astype("float32")
            cols[v] = col
        out.append(pd.DataFrame(cols, index=np.array(idx, dtype="int64")))
    return out


def lag_rows(dfs, names, p):
    """Independent construction from (realisation, time) -> values."""
    X, L = [], []
    for df in dfs:
        idx = [int(t) for t in df.index]
        at = {t: [df[v].values[k] for v in names] for k, t in enumerate(idx)}
        for t in idx:
            if all(t - k in at for k in range(1, p + 1)):
                X.append([float(x) for x in at[t]])
                L.append([float(x) for k in range(1, p + 1) for x in at[t - k]])
    return np.array(X).reshape(len(X), len(names)), np.array(L).reshape(len(L), p * len(names))


@st.composite
def y03_case(draw, wide=False):
    c = draw(realisations(dmax=3, long=True, wide=wide))
    if wide:
        c["p"] = 1
    c.update(draw(tabu(c["d"], c["p"])))
    c.update(lw=draw(st.sampled_from([None, 0.05])), la=draw(st.sampled_from([None, 0.05])), thr=draw(st.sampled_from([None, 0.1])),
             max_iter=draw(st.sampled_from([1] if wide else [None, 3])))
    return c


def check_y03(c, ctx):
    m = mods.get("structure.dynotears")
    d, p, names = c["d"], c["p"], c["names"]
    if c["single"]:
        c["reals"] = c["reals"][:1]
    dfs = frames(c)
    snap = copy.deepcopy(dfs)
    X, L = lag_rows(dfs, names, p)
    arg = dfs[0] if c["single"] else dfs
    try:
        g, w1 = _run(m.from_pandas_dynamic, (arg, p), kwargs(c, names=names))
        ref, w2 = learn(m, X, L, c)
    except AssertionError as e:
        ctx.fail(str(e))
    for a, b in zip(dfs, snap):
        ctx.require(list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and (a.values == b.values).all(), "a table was modified")
    want_nodes = {"%s_lag%d" % (v, l) for v in names for l in range(p + 1)}
    ctx.require(set(g.nodes) == want_nodes, lambda: "nodes are %r, expected %r" % (sorted(g.nodes), sorted(want_nodes)))

    def ren(u):
        i, l = u.split("_lag")
        return "%s_lag%s" % (names[int(i)], l)
    got = {(u, v): w for u, v, w in g.edges.data("weight")}
    want = {(ren(u), ren(v)): w for u, v, w in ref.edges.data("weight")}
    ok = same_edges(got, want) and w1 == w2
    if not ok:      # same numbers in another memory layout may round differently
        for Y, M in ((np.asfortranarray(X), np.asfortranarray(L)), (np.asfortranarray(X), L), (X, np.asfortranarray(L)),
                     (X.astype(dfs[0].values.dtype), L.astype(dfs[0].values.dtype))):
            r2, w2 = learn(m, Y, M, c)
            if same_edges(got, {(ren(u), ren(v)): w for u, v, w in r2.edges.data("weight")}) and w1 == w2:
                ok = True
                break
    ctx.require(ok, lambda: "lag order %d, columns %r: the tables give %r; the lag matrices give (relabelled) %r" % (p, names, got, want))
    ctx.require([o for _, _, o in g.edges.data("origin")] == ["learned"] * len(got), lambda: "origins are %r" % list(g.edges.data("origin")))
    ctx.label("realisations: %d" % len(dfs))
    ctx.label("lag order %d" % p)
    ctx.nontrivial(bool(got) and (len(dfs) > 1 or any(len(r["segs"]) > 1 for r in c["reals"]) or p > 1))


@st.composite
def y04_case(draw, wide=False, many=False):
    c = draw(realisations(dmax=2 if many else 4, wide=wide, many=many))
    c.update(order=draw(st.permutations(range(c["d"]))), extra=draw(st.booleans()), refit=draw(st.sampled_from(["", "", "order", "other", "more"])))
    return c


def check_y04(c, ctx):
    t = mods.get("structure.transformers")
    d, p, names = c["d"], c["p"], c["names"]
    if c["single"]:
        c["reals"] = c["reals"][:1]
    dfs = frames(c, distinct=True)
    X, L = lag_rows(dfs, names, p)
    arg = dfs[0] if c["single"] else dfs
    snap = copy.deepcopy(dfs)
    tr = t.DynamicDataTransformer(p=p)
    if c["refit"]:
        # an earlier fit leaves no trace
        before = {"order": [names[k] for k in c["order"]], "other": ["o%d" % k for k in range(d)][::-1], "more": ["o1"] + names[::-1]}[c["refit"]]
        other = frames(dict(c, names=before, d=len(before), seed=1), distinct=True)
        tr.fit(other[0] if c["seed"] % 2 else other, return_df=True).transform(other)
    gx, gl = tr.fit(arg, return_df=False).transform(arg)
    what = "lag order %d, indices %r" % (p, [list(f.index) for f in dfs])

    def same(a, b, w):
        ctx.require(np.asarray(a).shape == b.shape and (np.asarray(a, dtype=float) == b).all(),
                    lambda: "%s: %s is %r, expected %r" % (what, w, np.asarray(a).tolist(), b.tolist()))
    same(gx, X, "X")
    same(gl, L, "Xlags")
    # columns in another order, with extra ones, are put back in the fitted order
    again = [f[[names[k] for k in c["order"]]] for f in dfs]
    if c["extra"]:
        again = [copy.deepcopy(f) for f in again]
        for f in again:
            f["extra column"] = 99
    gx, gl = tr.transform(again[0] if c["single"] else again)
    same(gx, X, "X after reordering columns")
    same(gl, L, "Xlags after reordering columns")
    df = t.DynamicDataTransformer(p=p).fit(arg).transform(arg)
    cols = ["%s_lag%d" % (v, l) for l in range(p + 1) for v in names]
    ctx.require(list(df.columns) == cols, lambda: "%s: columns are %r, expected %r" % (what, list(df.columns), cols))
    same(df.values, np.hstack([X, L]), "the table")
    ft = t.DynamicDataTransformer(p=p).fit_transform(arg, return_df=False)
    same(ft[0], X, "X of fit_transform")
    same(ft[1], L, "Xlags of fit_transform")
    for a, b in zip(dfs, snap):
        ctx.require(list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and (a.values == b.values).all(), "a table was modified")
    segs = [s for r in c["reals"] for s in r["segs"]]
    ctx.label("a segment not longer than the lag order", any(s <= p for s in segs))
    ctx.label("no row at all", len(X) == 0)
    ctx.label("fitted before to %s columns" % c["refit"], bool(c["refit"]))
    ctx.label("several segments", len(segs) > 1)
    ctx.label("several realisations", len(dfs) > 1)
    ctx.nontrivial(len(segs) > 1 and len(X) > 0)


BREAK = ["unsorted", "duplicate", "float-index", "str-index", "object-column", "bool-column", "other-columns", "order-columns", "other-dtype",
         "not-a-frame", "empty-list", "missing-column", "not-fitted"]


@st.composite
def y04_bad_case(draw):
    c = draw(realisations())
    c.update(kind=draw(st.sampled_from(BREAK)), which=draw(st.integers(0, 5)), pos=draw(st.integers(0, 30)), at=draw(st.sampled_from(["fit", "transform"])))
    return c


def check_y04_bad(c, ctx):
    import pandas as pd
    t = mods.get("structure.transformers")
    names, p, kind = c["names"], c["p"], c["kind"]
    good = frames(c, distinct=True)
    dfs = frames(c, distinct=True)
    k = c["which"] % len(dfs)
    f = dfs[k]
    exc = (ValueError,)
    if kind == "unsorted":
        if len(f) < 2:
            ctx.discard()
        a = c["pos"] % (len(f) - 1)
        idx = list(f.index)
        idx[a], idx[a + 1] = idx[a + 1], idx[a]
        dfs[k] = pd.DataFrame({v: f[v].values for v in names}, index=np.array(idx, dtype="int64"))
    elif kind == "duplicate":
        # two rows with the same time index are not a consecutive series: rejected, or at least never paired as successive
        if len(f) < 2:
            ctx.discard()
        a = c["pos"] % (len(f) - 1)
        idx = list(f.index)
        idx[a + 1:] = [x - (idx[a + 1] - idx[a]) for x in idx[a + 1:]]
        dfs[k] = pd.DataFrame({v: f[v].values for v in names}, index=np.array(idx, dtype="int64"))
        try:
            X, L = t.DynamicDataTransformer(p=p).fit_transform(dfs, return_df=False)
        except (ValueError, TypeError):
            ctx.label("duplicate index rejected")
            return
        pairs = set()
        for g in dfs:
            vals, ix = g.values, list(g.index)
            for x in range(len(ix)):
                for y in range(len(ix)):
                    if ix[x] - ix[y] == 1:
                        pairs.add((float(vals[x, 0]), float(vals[y, 0])))
        for row in range(len(X)):
            ctx.require((float(X[row, 0]), float(L[row, 0])) in pairs,
                        lambda: "index %r: the value %r is presented as one step after %r" % (idx, float(X[row, 0]), float(L[row, 0])))
        ctx.label(kind)
        ctx.nontrivial(len(X) > 0)
        return
    elif kind == "float-index":
        exc = (TypeError,)
        dfs[k] = pd.DataFrame({v: f[v].values for v in names}, index=np.array(f.index, dtype=float))
    elif kind == "str-index":
        exc = (TypeError, ValueError)
        dfs[k] = pd.DataFrame({v: f[v].values for v in names}, index=["%05d" % x for x in range(len(f))])
    elif kind in ("object-column", "bool-column"):
        cols = {v: f[v].values for v in names}
        v = names[c["pos"] % len(names)]
        cols[v] = np.array(["x"] * len(f), dtype=object) if kind == "object-column" else np.zeros(len(f), dtype=bool)
        dfs[k] = pd.DataFrame(cols, index=f.index)
    elif kind == "other-columns":
        if len(dfs) < 2:
            ctx.discard()
        dfs[k] = pd.DataFrame({(v if v != names[0] else "unlike"): f[v].values for v in names}, index=f.index)
    elif kind == "order-columns":
        if len(dfs) < 2 or len(names) < 2:
            ctx.discard()
        dfs[k] = f[names[::-1]]
    elif kind == "other-dtype":
        if len(dfs) < 2:
            ctx.discard()
        cols = {v: f[v].values for v in names}
        v = names[c["pos"] % len(names)]
        cols[v] = cols[v].astype("float64" if cols[v].dtype.kind == "i" else "int64")
        dfs[k] = pd.DataFrame(cols, index=f.index)
    elif kind == "not-a-frame":
        exc = (TypeError,)
        dfs[k] = [f.values, None, {"a": 1}, "x"][c["pos"] % 4]
        if k == 0:
            exc = (TypeError, AttributeError)
    elif kind == "empty-list":
        dfs = []
    tr = t.DynamicDataTransformer(p=p)
    if kind == "not-fitted":
        from sklearn.exceptions import NotFittedError
        expect_raises(ctx, (NotFittedError,), lambda: tr.transform(dfs), "transform before fit")
    elif kind == "missing-column":
        if len(names) < 2:
            ctx.discard()
        tr.fit(good)
        dfs = [g[[v for v in names if v != names[c["pos"] % len(names)]]] for g in good]
        expect_raises(ctx, (ValueError,), lambda: tr.transform(dfs), "transform without a fitted column")
    elif c["at"] == "fit":
        expect_raises(ctx, exc, lambda: tr.fit(dfs), "fit (%s in realisation %d of %d)" % (kind, k, len(good)))
    else:
        tr.fit(good)
        expect_raises(ctx, exc, lambda: tr.transform(dfs), "transform (%s in realisation %d of %d)" % (kind, k, len(good)))
    ctx.label(kind)
    ctx.nontrivial()


# ---------------------------------------------------------------- Y05
@st.composite
def y05_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": draw(st.integers(2, 3)), "p": draw(st.integers(1, 2)), "lam": draw(st.sampled_from([0.02, 0.05])), "k": 4}


def easy_series(seed, d, p, n=400):
    r = np.random.RandomState(seed)
    order = r.permutation(d)
    W = np.zeros((d, d))
    for a in range(d):
        for b in range(a + 1, d):
            if r.rand() < .7:
                W[order[a], order[b]] = r.choice([-1, 1]) * r.uniform(.8, 1.5)
    A = np.zeros((p, d, d))
    for q in range(p):
        for i in range(d):
            for j in range(d):
                if r.rand() < .35:
                    A[q, i, j] = r.choice([-1, 1]) * r.uniform(.3, .6) / (q + 1)
    inv = np.linalg.inv(np.eye(d) - W)
    C = np.zeros((d * p, d * p))
    C[:, :d] = np.vstack([a @ inv for a in A])
    for q in range(p - 1):
        C[q * d:(q + 1) * d, (q + 1) * d:(q + 2) * d] = np.eye(d)
    rad = max(abs(np.linalg.eigvals(C)))
    if rad > .8:
        A *= np.array([(.8 / rad) ** (q + 1) for q in range(p)])[:, None, None]
    T = n + p + 50
    X = np.zeros((T, d))
    for t in range(p, T):
        X[t] = (sum(X[t - q - 1] @ A[q] for q in range(p)) + r.randn(d)) @ inv
    X = X[50:]
    return W, A, X[p:], np.hstack([X[p - q - 1:len(X) - q - 1] for q in range(p)])


def check_y05(c, ctx):
    m = mods.get("structure.dynotears")
    d, p, lam = c["d"], c["p"], c["lam"]
    hits, rows = 0, []
    for b in range(c["k"]):
        W, A, X, L = easy_series([c["seed"], b], d, p)
        g, _ = learn(m, X, L, {"lw": lam, "la": lam})
        V, B = matrices(g, d, p)

        def obj(w, a):
            return 0.5 / len(X) * np.linalg.norm(X - X @ w - L @ a.reshape(p * d, d)) ** 2 + lam * (np.abs(w).sum() + np.abs(a).sum())
        ratio = obj(V, B) / obj(W, A)
        ctx.require(ratio < 1.2, lambda: "series %d: the learned structure has penalised loss %.4g times that of the process the series came from" % (b, ratio))
        good = bool(((np.abs(V) > 0.3) == (W != 0)).all() and np.abs(B - A).max() < 0.6)
        hits += good
        rows.append((round(float(ratio), 3), good, round(float(np.abs(B - A).max()), 3)))
        ctx.count("series")
        ctx.count("recovered", int(good))
    ctx.require(hits >= c["k"] // 2, lambda: "the generating process was recovered in only %d of %d easy series: %r" % (hits, c["k"], rows))
    ctx.label("lag order %d" % p)
    ctx.nontrivial(hits > 0)


PROPS = {
    "Y05": lambda: Prop("Y05", [Leg("recovery", y05_case, check_y05, 64, cpu_limit=120)], ""),
    "Y01": lambda: Prop("Y01", [Leg("constraints", y01_case, check_y01, 240), Leg("many variables", lambda: y01_case(wide=True), check_y01, 24)], ""),
    "Y02": lambda: Prop("Y02", [Leg("ordering", y02_case, check_y02, 1200), Leg("many variables", lambda: y02_case(wide=True), check_y02, 48), Leg("many rows", lambda: many_rows(y02_case()), check_y02, 40)], ""),
    "Y03": lambda: Prop("Y03", [Leg("relabel", y03_case, check_y03, 160), Leg("many variables", lambda: y03_case(wide=True), check_y03, 24)], ""),
    "Y04": lambda: Prop("Y04", [Leg("lags", y04_case, check_y04, 1200), Leg("many variables", lambda: y04_case(wide=True), check_y04, 200), Leg("many segments", lambda: y04_case(many=True), check_y04, 150), Leg("rejections", y04_bad_case, check_y04_bad, 800)], ""),
}
