"""N01-N06 (static structure learning)."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import mods
from ..core import many_rows, Leg, Prop, expect_raises
from ..num import Optimum, confirmed, h_value, same_edges

DTYPES = ["float64", "float64", "float64", "float32", "int64", "int32", "int16", "int8", "uint8", "bool"]
LABELS = ["b", "a", "zz", "Z", "c_1", "a_lag0", "0", "10", "9", 3, 0, 1, 2, 11, ("t", 1), "", "weight", "é", "x y"]


# ---------------------------------------------------------------- data
def make_data(c):
    """Data matrix of a compact case; a pure function of the case."""
    r = np.random.RandomState(c["seed"])
    d, n = c["d"], c["n"]
    order = r.permutation(d)
    W = np.zeros((d, d))
    for a in range(d):
        for b in range(a + 1, d):
            if r.rand() < c["dens"]:
                W[order[a], order[b]] = r.choice([-1, 1]) * r.uniform(0.5, 2)
    X = np.zeros((n, d))
    for j in order:
        X[:, j] = X @ W[:, j] + r.randn(n)
    X = X * c.get("scale", 1) + c.get("shift", 0)
    for k in c.get("const", []):
        X[:, k % d] = 1.0
    dt = c.get("dtype", "float64")
    if dt == "int8":
        X = np.clip(np.round(X * 12), -120, 120).astype(dt)
    elif dt == "uint8":
        X = np.clip(np.round(X * 30 + 30), 0, 255).astype(dt)
    elif dt.startswith("int"):
        X = np.clip(np.round(X * 5), -30000, 30000).astype(dt)
    elif dt == "bool":
        X = X > 0
    else:
        X = X.astype(dt)
    lay = c.get("layout", "C")
    if lay == "F":
        X = np.asfortranarray(X)
    elif lay == "strided":
        big = np.empty((2 * n, d + 1), dtype=X.dtype)
        big[:] = 0
        big[::2, :d] = X
        X = big[::2, :d]
    elif lay == "reversed":
        X = np.ascontiguousarray(X[:, ::-1])[:, ::-1]
    if c.get("readonly"):
        X.setflags(write=False)
    return X


def data_strategy(dmax=5, dtypes=DTYPES, nmin=8):
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10 ** 6), "d": st.integers(1, dmax), "n": st.sampled_from([nmin, nmin + 7, 40, 80]),
        "dens": st.sampled_from([0.0, 0.4, 0.8, 1.0]), "scale": st.sampled_from([1, 1, 1, 0.3, 4]), "shift": st.sampled_from([0, 0, 0, 1, -3]),
        "const": st.lists(st.integers(0, dmax - 1), max_size=1) | st.just([]), "dtype": st.sampled_from(dtypes)})


def wide_strategy(dtypes=DTYPES):
    """More than ten variables: the order of columns is not the order of their decimal names."""
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10 ** 6), "d": st.integers(11, 13), "n": st.sampled_from([20, 40]), "dens": st.sampled_from([0.1, 0.3]),
        "scale": st.sampled_from([1, 1, 0.3]), "shift": st.sampled_from([0, 0, 1]), "const": st.just([]), "dtype": st.sampled_from(dtypes)})


def beta_strategy(zero=True):
    return st.sampled_from([None, None, None, None] + ([0, 0.0] if zero else []) + [0.01, 0.05, 0.2, 1, 5.0])


@st.composite
def tabu(draw, d):
    pair = st.tuples(st.integers(0, d - 1), st.integers(0, d - 1))
    return {"te": draw(st.none() | st.lists(pair, max_size=6)),
            "tp": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=2)),
            "tc": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=2))}


def learn(m, X, c, thr=None, pandas=False, names=None):
    """Run the learner described by the case; returns (structure, number of non-convergence warnings)."""
    tr = (lambda k: k) if names is None else (lambda k: names[k])
    kw = {}
    if c.get("max_iter") is not None:
        kw["max_iter"] = c["max_iter"]
    if c.get("h_tol") is not None:
        kw["h_tol"] = c["h_tol"]
    t = c.get("thr") if thr is None else thr
    if t is not None:
        kw["w_threshold"] = t
    if c.get("te") is not None:
        kw["tabu_edges"] = [(tr(u), tr(v)) for u, v in c["te"]]
    if c.get("tp") is not None:
        kw["tabu_parent_nodes"] = [tr(u) for u in c["tp"]]
    if c.get("tc") is not None:
        kw["tabu_child_nodes"] = [tr(u) for u in c["tc"]]
    before = copy.deepcopy(kw)
    beta = c.get("beta")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if beta is None:
            g = (m.from_pandas if pandas else m.from_numpy)(X, **kw)
        else:
            g = (m.from_pandas_lasso if pandas else m.from_numpy_lasso)(X, beta, **kw)
    if repr(kw) != repr(before):
        raise AssertionError("the constraint lists were changed from %r to %r" % (before, kw))
    return g, sum("converge" in str(w.message).lower() for w in ws)


def weights(g, d, index=None):
    W = np.zeros((d, d))
    for u, v, w in g.edges.data("weight"):
        if index is not None:
            u, v = index[u], index[v]
        W[u, v] = w
    return W


def desc(c):
    return "learning from %d variables (%s)" % (c["d"], "lasso %r" % c["beta"] if c.get("beta") is not None else "plain")


# ---------------------------------------------------------------- N01
@st.composite
def n01_case(draw, wide=False):
    c = draw(wide_strategy() if wide else data_strategy())
    c.update(draw(tabu(c["d"])))
    c.update(beta=draw(beta_strategy()), thr=draw(st.sampled_from([0, 0, 0.01, 0.1, 0.3, 0.8, 1.5])),
             max_iter=draw(st.sampled_from([1, 1, 2] if wide else [100, 100, 5, 1])), h_tol=draw(st.sampled_from([None, None, 1e-4])),
             pandas=draw(st.booleans()), names=draw(st.permutations(LABELS))[:c["d"]] if draw(st.booleans()) else None)
    return c


def check_n01(c, ctx):
    m = mods.get("structure.notears")
    X = make_data(c)
    d = c["d"]
    if c["pandas"] and c["dtype"] != "bool":
        import pandas as pd
        names = list(c["names"]) if c["names"] else ["v%d" % i for i in range(d)]
        data = pd.DataFrame(X, columns=names)
        g, _ = learn(m, data, c, pandas=True, names=names)
        full, _ = learn(m, data, c, thr=0, pandas=True, names=names)
        nodes = names
    else:
        g, _ = learn(m, X, c)
        full, _ = learn(m, X, c, thr=0)
        nodes = list(range(d))
    index = {v: i for i, v in enumerate(nodes)}
    for what, s in (("learned structure", g), ("structure learned with threshold 0", full)):
        ctx.require(len(s.nodes) == d and set(s.nodes) == set(nodes), lambda: "%s has nodes %r, the data has columns %r" % (what, list(s.nodes), nodes))
        for u, v, w in s.edges.data("weight"):
            i, j = index[u], index[v]
            ctx.require(w is not None and np.isfinite(w), lambda: "%s: edge %r->%r has weight %r" % (what, u, v, w))
            ctx.require(i != j, lambda: "%s has the self-loop %r" % (what, u))
            ctx.require((i, j) not in (c["te"] or []), lambda: "%s has the tabu edge %r->%r (weight %r)" % (what, u, v, w))
            ctx.require(i not in (c["tp"] or []), lambda: "%s has the edge %r->%r out of a tabu parent (weight %r)" % (what, u, v, w))
            ctx.require(j not in (c["tc"] or []), lambda: "%s has the edge %r->%r into a tabu child (weight %r)" % (what, u, v, w))
            if s is g:
                ctx.require(abs(w) >= c["thr"], lambda: "edge %r->%r has weight %r, below the threshold %r" % (u, v, w, c["thr"]))
    want = {(u, v): w for u, v, w in full.edges.data("weight") if abs(w) >= c["thr"]}
    got = {(u, v): w for u, v, w in g.edges.data("weight")}
    ctx.require(same_edges(got, want, skip=lambda w: abs(abs(w) - c["thr"]) < 1e-6 or w == 0), lambda: "threshold %r gives the edges %r; without it the edges that strong are %r" % (c["thr"], got, want))
    ctx.label("lasso" if c["beta"] is not None else "plain")
    ctx.label("pandas", c["pandas"])
    ctx.label("threshold removed some", len(want) < full.number_of_edges())
    ctx.label("has edges", bool(got))
    k = sum(bool(c[x]) for x in ("te", "tp", "tc"))
    ctx.label("constraint kinds: %d" % k)
    ctx.nontrivial(full.number_of_edges() > 0 and (k > 0 or c["thr"] > 0))


# ---------------------------------------------------------------- N02
@st.composite
def n02_case(draw, wide=False):
    types = ["float64", "float64", "float32", "int64"]
    c = draw(wide_strategy(types) if wide else data_strategy(dtypes=types))
    if wide:
        c["d"] = draw(st.integers(7, 12))
    c["d"] = max(2, c["d"])
    if draw(st.integers(0, 2)) == 0:
        c.update(draw(tabu(c["d"])))
    c.update(beta=draw(beta_strategy()), max_iter=draw(st.sampled_from([100, 1, 2, 3] if wide else [100, 100, 1, 2, 3, 5, 10])),
             h_tol=draw(st.sampled_from([None, None, 1e-3, 1e-5, 1e-10, 1e-11, 0.1])))
    return c


def check_acyclicity(ctx, W, warned, tol, what):
    h = h_value(W)
    d = len(W)
    if warned:
        ctx.require(h > tol * (1 - 1e-6) - 1e-12, lambda: "%s: a non-convergence warning was issued although h(W)=%r is within the tolerance %r" % (what, h, tol))
        ctx.label("warned")
        return
    ctx.require(h <= tol * (1 + 1e-6) + 1e-12, lambda: "%s: no warning was issued but h(W)=%r exceeds the tolerance %r" % (what, h, tol))
    # a k-cycle whose weakest edge is w contributes at least w**2k/(k-1)! to h
    import math
    bound = max((math.factorial(k - 1) * max(h, 0) + 1e-12) ** (1.0 / (2 * k)) for k in range(1, d + 1))
    import networkx as nx
    G = nx.DiGraph([(i, j) for i in range(d) for j in range(d) if abs(W[i, j]) > bound * 1.000001])
    ctx.require(nx.is_directed_acyclic_graph(G), lambda: "%s: a cycle is left after dropping edges of weight up to %r" % (what, bound))


def check_n02(c, ctx):
    m = mods.get("structure.notears")
    X = make_data(c)
    g, warned = learn(m, X, c)
    tol = c["h_tol"] if c["h_tol"] is not None else 1e-8
    W = weights(g, c["d"])
    check_acyclicity(ctx, W, warned, tol, desc(c))
    ctx.label("lasso" if c["beta"] is not None else "plain")
    ctx.label("few iterations", c["max_iter"] < 100)
    ctx.nontrivial(bool((W != 0).any()) and c["d"] > 1)


@st.composite
def n02_dyn_case(draw):
    from .dynamic import series_strategy
    c = draw(series_strategy())
    c.update(lw=draw(st.sampled_from([0, 0.01, 0.1])), la=draw(st.sampled_from([0.01, 0.1])), max_iter=draw(st.sampled_from([100, 1, 2, 3])),
             h_tol=draw(st.sampled_from([None, 1e-3, 1e-5, 1e-10])))
    return c


def check_n02_dyn(c, ctx):
    from . import dynamic
    m = mods.get("structure.dynotears")
    X, L = dynamic.make_series(c)
    g, warned = dynamic.learn(m, X, L, c)
    W, A = dynamic.matrices(g, c["d"], c["p"])
    check_acyclicity(ctx, W, warned, c["h_tol"] if c["h_tol"] is not None else 1e-8, "dynamic learning")
    ctx.nontrivial(bool((W != 0).any()))


# ---------------------------------------------------------------- N03
@st.composite
def n03_case(draw, wide=False):
    c = draw(wide_strategy() if wide else data_strategy(dmax=6))
    c["d"] = draw(st.integers(7, 12)) if wide else max(2, c["d"])
    d = c["d"]
    c["n"] = max(c["n"], 3 * d)
    c.update(beta=draw(beta_strategy()), order=draw(st.permutations(range(d))),
             drop=draw(st.lists(st.tuples(st.integers(0, d - 1), st.integers(0, d - 1)), max_size=4)),
             tp=draw(st.none() | st.lists(st.integers(0, d - 1), max_size=1)), tc=draw(st.none() | st.lists(st.integers(0, d - 1), max_size=1)),
             layout=draw(st.sampled_from(["C", "C", "F", "strided"])))
    return c


def check_n03(c, ctx):
    m = mods.get("structure.notears")
    X = make_data(c)
    d, n = c["d"], c["n"]
    pos = {v: k for k, v in enumerate(c["order"])}
    c["te"] = [(i, j) for i in range(d) for j in range(d) if i != j and pos[i] > pos[j]] + list(c["drop"])
    allowed = np.array([[i != j and (i, j) not in c["te"] and i not in (c["tp"] or []) and j not in (c["tc"] or []) for j in range(d)] for i in range(d)])
    g, warned = learn(m, X, c)
    ctx.require(not warned, "%s with an imposed ordering reports that it failed to converge" % desc(c))
    W = weights(g, d)
    ctx.require(not (W[~allowed] != 0).any(), lambda: "%s: forbidden edge in %r" % (desc(c), W.tolist()))
    beta = c["beta"] or 0.0

    def optimum(X, W):
        Xf = X.astype(float)
        opt = Optimum()
        for j in range(d):
            pa = np.where(allowed[:, j])[0]
            opt.add(Xf[:, pa], Xf[:, j], np.full(len(pa), float(beta)), W[pa, j], penalised=c["beta"] is not None)
        return opt
    opt = optimum(X, W)
    if not opt.ok():
        again = confirmed(lambda Y: optimum(Y, weights(learn(m, Y, c)[0], d)).ok(), X)
        ctx.label("optimiser stopped early once", again)
        ctx.require(again, lambda: "%s, ordering imposed: %s" % (desc(c), opt.text()))
    ctx.label("well conditioned", opt.well_conditioned())
    ctx.label("lasso" if c["beta"] is not None else "plain")
    ctx.label("dtype %s" % c["dtype"])
    ctx.nontrivial(bool((W != 0).any()))


# ---------------------------------------------------------------- N04
@st.composite
def n04_bad_case(draw):
    c = draw(data_strategy(dmax=4, dtypes=["float64", "float64", "float32"]))
    c["n"] = draw(st.sampled_from([0, 1, 2, 5, 20]))
    k = draw(st.integers(1, 3))
    c.update(bad=[[draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(["nan", "inf", "-inf"]))] for _ in range(k)] if c["n"] else [],
             path=draw(st.sampled_from(["numpy", "pandas", "dynamic-x", "dynamic-lags", "dynamic-pandas"])),
             beta=draw(beta_strategy()), max_iter=draw(st.sampled_from([100, 2])), p=draw(st.integers(1, 2)),
             empty=draw(st.sampled_from(["", "", "", "columns", "rows"])))
    if c["empty"]:
        c["bad"] = []
    if draw(st.booleans()) and not c["path"].startswith("dynamic"):
        c.update(draw(tabu(c["d"])))
    return c


def check_n04_bad(c, ctx):
    d, n = c["d"], c["n"]
    rows = n
    c = dict(c, n=max(n, 1), const=[])
    X = make_data(c)[:rows].copy()
    path = c["path"]
    if path.startswith("dynamic"):
        X = make_data(dict(c, n=rows + c["p"]))
        L = np.hstack([X[c["p"] - k - 1:len(X) - k - 1] for k in range(c["p"])])
        X0 = X
        X = X[c["p"]:].copy()
    target = L if path == "dynamic-lags" else X
    if path == "dynamic-pandas":
        target = X0 = X0.copy()
    for k, v in c["bad"]:
        if target.size:
            target.flat[k % target.size] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[v]
    if c["empty"] and rows:
        # one of the matrices alone is empty
        if path == "dynamic-pandas":
            ctx.discard()
        target = target[:, :0] if c["empty"] == "columns" else target[:0]
        if path == "dynamic-lags":
            L = target
        else:
            X = target
        if path == "pandas":
            d = X.shape[1]
        c.update(te=None, tp=None, tc=None)
        ctx.label("no " + c["empty"])
    if rows == 0:
        ctx.label("no rows")
    what = "%s of a %dx%d matrix with %s" % (path, rows, d, [v for _, v in c["bad"]] or "no %s" % (c["empty"] or "rows"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if path in ("numpy", "pandas"):
            m = mods.get("structure.notears")
            names = None
            if path == "pandas":
                import pandas as pd
                names = ["c%d" % k for k in range(d)]
                data = pd.DataFrame(X, columns=names)
            else:
                data = X
            expect_raises(ctx, (ValueError,), lambda: learn(m, data, c, pandas=path == "pandas", names=names), what)
        else:
            m = mods.get("structure.dynotears")
            if path == "dynamic-pandas":
                import pandas as pd
                if rows == 0:
                    ctx.discard()
                df = pd.DataFrame(X0, columns=["c%d" % k for k in range(d)], index=list(range(len(X0))))
                expect_raises(ctx, (ValueError,), lambda: m.from_pandas_dynamic(df, p=c["p"], max_iter=c["max_iter"]), what)
            else:
                expect_raises(ctx, (ValueError,), lambda: m.from_numpy_dynamic(X, L, max_iter=c["max_iter"]), what)
    ctx.label(path)
    ctx.nontrivial(bool(c["bad"]) or rows == 0)


@st.composite
def n04_shape_case(draw):
    return {"d": draw(st.integers(1, 5)), "n": draw(st.integers(2, 12)), "p": draw(st.integers(1, 3)), "how": draw(st.sampled_from(["rows", "columns", "columns", "rows+columns"])),
            "by": draw(st.sampled_from([1, -1, 2, 3, -2])), "seed": draw(st.integers(0, 10 ** 6)), "tabu": draw(st.booleans())}


def check_n04_shape(c, ctx):
    """The lag matrix must have the rows of the present values and a whole number of lags."""
    m = mods.get("structure.dynotears")
    r = np.random.RandomState(c["seed"])
    rows, cols = c["n"], c["d"] * c["p"]
    if "rows" in c["how"]:
        rows = max(1, rows + c["by"])
    if "columns" in c["how"]:
        cols = max(1, cols + c["by"])
    if rows == c["n"] and cols % c["d"] == 0:
        ctx.discard()
    X, L = r.randn(c["n"], c["d"]), r.randn(rows, cols)
    kw = {"tabu_parent_nodes": []} if c["tabu"] else {}
    expect_raises(ctx, (ValueError,), lambda: m.from_numpy_dynamic(X, L, max_iter=2, **kw), "from_numpy_dynamic with shapes %r and %r" % (X.shape, L.shape))
    ctx.label(c["how"])
    ctx.nontrivial(c["d"] > 1)


@st.composite
def n04_pure_case(draw, wide=False):
    c = draw(wide_strategy() if wide else data_strategy(dmax=4))
    c.update(draw(tabu(c["d"])))
    c.update(beta=draw(beta_strategy()), thr=draw(st.sampled_from([None, 0.1])), max_iter=draw(st.sampled_from([1, 2] if wide else [100, 3])),
             layout=draw(st.sampled_from(["C", "F", "strided", "reversed"])), readonly=draw(st.booleans()), np_seed=draw(st.integers(0, 99)))
    big = None if wide else draw(st.sampled_from([None, None, None, "float16", "float64", "float32"]))
    if big:
        # large but finite values (sums of the half-precision ones overflow)
        c.update(dtype=big, const=[], scale={"float16": 1500, "float32": 1e30, "float64": 1e100}[big], shift={"float16": 5000, "float32": 1e31, "float64": 1e101}[big], max_iter=3)
    elif draw(st.booleans()):
        # far from centred, tiny, wide
        c.update(dtype=draw(st.sampled_from(["float64", "float64", "float32"])), scale=draw(st.sampled_from([1e-6, 0.01, 1, 30])), shift=draw(st.sampled_from([0, 1, -50, 1e4, -1e7])), max_iter=3)
    return c


def check_n04_pure(c, ctx):
    m = mods.get("structure.notears")
    X = make_data(c)
    snap = X.copy()
    np.random.seed(c["np_seed"])
    state = np.random.get_state()[1].copy()
    try:
        g, w1 = learn(m, X, c)
        ctx.require((X == snap).all() and X.dtype == snap.dtype, "%s changed the data matrix" % desc(c))
        ctx.require((np.random.get_state()[1] == state).all(), "%s draws from (or reseeds) the global random generator" % desc(c))
        np.random.seed(c["np_seed"] + 1000)
        other = make_data(dict(c, seed=c["seed"] + 1, readonly=False))
        learn(m, other, dict(c, te=None, tp=None, tc=None, max_iter=1))
        g2, w2 = learn(m, X, c)
    except AssertionError as e:
        ctx.fail("%s: %s" % (desc(c), e))
    a = {(u, v): w for u, v, w in g.edges.data("weight")}
    b = {(u, v): w for u, v, w in g2.edges.data("weight")}
    ctx.require(set(g.nodes) == set(g2.nodes) and w1 == w2 and same_edges(a, b), lambda: "%s twice gives %r and then %r" % (desc(c), a, b))
    ctx.label("layout %s" % c["layout"])
    ctx.label("large values", c.get("scale", 1) > 1000)
    ctx.label("read-only", c["readonly"])
    ctx.nontrivial(bool(a))


# ---------------------------------------------------------------- N05
@st.composite
def n05_case(draw, wide=False):
    types = ["float64", "float64", "int64", "int32", "float32"]
    c = draw(wide_strategy(types) if wide else data_strategy(dmax=4, dtypes=types))
    d = c["d"]
    c.update(draw(tabu(d)))
    kind = draw(st.sampled_from(["mixed", "ints", "strings"]))
    if kind == "ints":
        names = draw(st.permutations(list(range(d))))
    elif kind == "strings":
        names = draw(st.permutations(list("badcehgfjilknm")))[:d]
    else:
        names = draw(st.permutations(LABELS))[:d]
    c.update(names=list(names), beta=draw(beta_strategy()), thr=draw(st.sampled_from([None, 0, 0.2, 1.0])), max_iter=draw(st.sampled_from([1, 1, 2] if wide else [None, 100, 2])),
             h_tol=draw(st.sampled_from([None, 1e-3])), mixed=draw(st.booleans()),
             bad=draw(st.none() | st.none() | st.none() | st.tuples(st.integers(0, d - 1), st.sampled_from(["str", "bool", "object"]))),
             index=draw(st.sampled_from([None, None, "shift", "str"])))
    return c


def check_n05(c, ctx):
    import pandas as pd
    m = mods.get("structure.notears")
    d, names = c["d"], c["names"]
    X = make_data(c)
    cols = [X[:, k] for k in range(d)]
    if c["mixed"] and c["dtype"] == "float64":
        cols[0] = np.round(cols[0] * 3).astype("int64")
    index = None if c["index"] is None else [k * 2 + 5 if c["index"] == "shift" else "r%d" % k for k in range(c["n"])]
    bad = None
    if c["bad"] is not None:
        bad = c["bad"][0] % d
        cols[bad] = {"str": np.array(["x%d" % (k % 2) for k in range(c["n"])], dtype=object), "bool": cols[bad] > 0,
                     "object": np.array(list(cols[bad].tolist()[:-1]) + ["z"], dtype=object)}[c["bad"][1]]
    df = pd.DataFrame({n: col for n, col in zip(names, cols)}, index=index)
    snap = [np.array(df[n].values, copy=True) for n in names]
    try:
        if bad is not None:
            expect_raises(ctx, (ValueError,), lambda: learn(m, df, c, pandas=True, names=names),
                          "learning from a table with a non-numeric column %r (%s)" % (names[bad], c["bad"][1]))
            g = None
        else:
            g, w1 = learn(m, df, c, pandas=True, names=names)
    except AssertionError as e:
        ctx.fail(str(e))
    ctx.require(list(df.columns) == list(names) and all(df[n].values.dtype == s.dtype and (df[n].values == s).all() for n, s in zip(names, snap)),
                "the table was modified")
    ctx.label("rejected", g is None)
    if g is None:
        return
    got = {(u, v): w for u, v, w in g.edges.data("weight")}
    ctx.require(len(g.nodes) == d and set(g.nodes) == set(names), lambda: "nodes are %r, columns are %r" % (list(g.nodes), names))
    ctx.require([o for _, _, o in g.edges.data("origin")] == ["learned"] * len(got), lambda: "origins are %r" % list(g.edges.data("origin")))
    best = None
    mat = np.column_stack(cols)
    for lay in ("C", "F"):
        Y = np.ascontiguousarray(mat) if lay == "C" else np.asfortranarray(mat)
        ref, w2 = learn(m, Y, c)
        want = {(names[u], names[v]): w for u, v, w in ref.edges.data("weight")}
        best = best or want
        if same_edges(got, want) and w1 == w2:
            break
    else:
        ctx.fail("%s: the table with columns %r gives the edges %r; its matrix gives (relabelled) %r" % (desc(c), names, got, best))
    ctx.label("lasso" if c["beta"] is not None else "plain")
    ctx.label("tabu", any(c[k] for k in ("te", "tp", "tc")))
    ctx.nontrivial(bool(got) and list(names) != list(range(d)) and list(map(str, names)) != sorted(map(str, names)))


# ---------------------------------------------------------------- N06
@st.composite
def n06_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": draw(st.integers(2, 4)), "n": draw(st.sampled_from([200, 400])),
            "dens": draw(st.sampled_from([0.4, 0.7, 1.0])), "beta": draw(st.sampled_from([None, None, 0, 0.02, 0.1])), "k": 8}


def check_n06(c, ctx):
    m = mods.get("structure.notears")
    d, n = c["d"], c["n"]
    beta = c["beta"] or 0.0
    hits, rows = 0, []
    for b in range(c["k"]):
        r = np.random.RandomState([c["seed"], b])
        order = r.permutation(d)
        W = np.zeros((d, d))
        for x in range(d):
            for y in range(x + 1, d):
                if r.rand() < c["dens"]:
                    W[order[x], order[y]] = r.choice([-1, 1]) * r.uniform(0.9, 2)
        X = np.zeros((n, d))
        for j in order:
            X[:, j] = X @ W[:, j] + r.randn(n)
        g, warned = learn(m, X, {"beta": c["beta"]})
        V = weights(g, d)

        def obj(M):
            return 0.5 / n * np.linalg.norm(X - X @ M) ** 2 + beta * np.abs(M).sum()
        ratio = obj(V) / obj(W)
        ctx.require(ratio < 1.6, lambda: "%s: data set %d: the learned structure has penalised loss %.4g times that of the structure the data came from" % (desc(c), b, ratio))
        same = ((np.abs(V) > 0.3) == (W != 0)).all()
        hits += same
        rows.append((round(float(ratio), 3), bool(same)))
        ctx.count("data sets")
        ctx.count("recovered exactly", int(same))
    ctx.require(hits >= c["k"] // 2 - 1, lambda: "%s: the generating structure was recovered in only %d of %d easy data sets: %r" % (desc(c), hits, c["k"], rows))
    ctx.nontrivial(hits > 0)


PROPS = {
    "N01": lambda: Prop("N01", [Leg("constraints", n01_case, check_n01, 500), Leg("many variables", lambda: n01_case(wide=True), check_n01, 120)], ""),
    "N02": lambda: Prop("N02", [Leg("static", n02_case, check_n02, 2000), Leg("many variables", lambda: n02_case(wide=True), check_n02, 120), Leg("dynamic", n02_dyn_case, check_n02_dyn, 400)], ""),
    "N03": lambda: Prop("N03", [Leg("ordering", n03_case, check_n03, 3000), Leg("many variables", lambda: n03_case(wide=True), check_n03, 120), Leg("many rows", lambda: many_rows(n03_case(), (300, 1100, 2600, 2600)), check_n03, 300)], ""),
    "N04": lambda: Prop("N04", [Leg("unusable", n04_bad_case, check_n04_bad, 2400), Leg("shapes", n04_shape_case, check_n04_shape, 400), Leg("pure", n04_pure_case, check_n04_pure, 1000), Leg("many variables", lambda: n04_pure_case(wide=True), check_n04_pure, 60)], ""),
    "N05": lambda: Prop("N05", [Leg("relabel", n05_case, check_n05, 1200), Leg("many variables", lambda: n05_case(wide=True), check_n05, 120), Leg("many rows", lambda: many_rows(n05_case()), check_n05, 40)], ""),
    "N06": lambda: Prop("N06", [Leg("recovery", n06_case, check_n06, 120, cpu_limit=120)], ""),
}
