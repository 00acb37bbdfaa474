"""G01-G03 (data generators)."""
import copy
import math
import warnings

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from .. import mods
from ..core import Leg, Prop, expect_raises

Z = 8.0     # standard errors allowed in statistical comparisons


def gen():
    mods.get("structure.structuremodel")
    return mods.get("structure.data_generators")


# ---------------------------------------------------------------- G01
@st.composite
def g01_case(draw):
    n = draw(st.integers(2, 14) | st.sampled_from([3, 8, 12, 30, 55]))
    a = draw(st.sampled_from([0.5, 0.1, 1, 2.5, 1e-3]))
    return {"n": n, "type": draw(st.sampled_from(["erdos-renyi", "barabasi-albert", "full"])),
            "degree": draw(st.sampled_from([0, 0.4, 1, 2, 3, 4.7, 5, 8, n - 1, n + 3])), "w_min": draw(st.sampled_from([a, -a])),
            "w_max": draw(st.sampled_from([a, 2 * a, -3 * a])), "seed": draw(st.integers(0, 10 ** 6)), "defaults": draw(st.booleans())}


def check_g01(c, ctx):
    g = gen()
    np.random.seed(c["seed"])
    kw = {} if c["defaults"] else {"w_min": c["w_min"], "w_max": c["w_max"]}
    lo, hi = (0.5, 0.5) if c["defaults"] else (abs(c["w_min"]), abs(c["w_max"]))
    n = c["n"]
    s = g.generate_structure(n, c["degree"], c["type"], **kw)
    what = "generate_structure(%d, %r, %r, %r)" % (n, c["degree"], c["type"], kw)
    ctx.require(sorted(s.nodes) == list(range(n)), lambda: "%s has nodes %r" % (what, list(s.nodes)))
    ctx.require(nx.is_directed_acyclic_graph(s), lambda: "%s has a cycle: %r" % (what, list(s.edges)))
    for u, v, w in s.edges.data("weight"):
        ctx.require(w is not None and lo * (1 - 1e-12) <= abs(w) <= hi * (1 + 1e-12), lambda: "%s: edge %r->%r has weight %r" % (what, u, v, w))
    m, full = s.number_of_edges(), n * (n - 1) // 2
    if c["type"] == "full" or (c["type"] == "erdos-renyi" and c["degree"] >= n - 1):
        ctx.require(m == full, "%s has %d edges, expected all %d" % (what, m, full))
    elif c["degree"] == 0:
        ctx.require(m == 0, "%s has %d edges, expected none" % (what, m))
    elif c["type"] == "barabasi-albert":
        k = int(round(c["degree"] / 2))
        top = sum(min(k, i) for i in range(1, n))
        ctx.require((n - 1 if k else 0) <= m <= top, "%s has %d edges, expected between %d and %d" % (what, m, n - 1 if k else 0, top))
        if k:
            ctx.require(nx.is_weakly_connected(s), "%s is not connected" % what)
        ctx.require(max([d for _, d in s.out_degree()] + [0]) <= k, lambda: "%s: a node is attached with more than %d edges" % (what, k))
    ctx.require(type(s).__name__ == "StructureModel", "%s is a %s" % (what, type(s).__name__))
    np.random.seed(c["seed"])
    t = g.generate_structure(n, c["degree"], c["type"], **kw)
    ctx.require(list(s.edges.data("weight")) == list(t.edges.data("weight")), "%s: the same random seed gives two structures" % what)
    ctx.label(c["type"])
    ctx.nontrivial(0 < m < full)


@st.composite
def g01_stat_case(draw):
    return {"n": draw(st.integers(2, 8)), "type": draw(st.sampled_from(["erdos-renyi", "full", "barabasi-albert"])),
            "degree": draw(st.sampled_from([0.5, 1, 2, 3.5])), "seed": draw(st.integers(0, 10 ** 6)), "k": 300}


def check_g01_stat(c, ctx):
    """Expected number of edges, both signs, every orientation, weights spread over their range."""
    g = gen()
    np.random.seed(c["seed"])
    n, k = c["n"], c["k"]
    edges = neg = fwd = 0
    ws = []
    for _ in range(k):
        s = g.generate_structure(n, c["degree"], c["type"], w_min=1, w_max=3)
        for u, v, w in s.edges.data("weight"):
            edges += 1
            neg += w < 0
            fwd += u < v
            ws.append(abs(w))
    pairs = n * (n - 1) // 2
    if c["type"] != "barabasi-albert":
        p = 1.0 if c["type"] == "full" else min(1.0, c["degree"] / (n - 1))
        sd = math.sqrt(k * pairs * p * (1 - p))
        ctx.require(abs(edges - k * pairs * p) <= Z * sd + 1e-9, lambda: "%s, %d nodes, degree %r: %d edges in %d structures, expected about %.1f" % (c["type"], n, c["degree"], edges, k, k * pairs * p))
    if edges >= 100:
        ctx.require(abs(neg - edges / 2) <= Z * math.sqrt(edges) / 2, lambda: "%d of %d weights are negative" % (neg, edges))
        # orientation is decided by one permutation per structure: use the structures, not the edges, as sample size
        ctx.require(0.5 - Z / 2 / math.sqrt(k) <= fwd / edges <= 0.5 + Z / 2 / math.sqrt(k), lambda: "%d of %d edges go from the smaller to the larger node number" % (fwd, edges))
        ctx.require(abs(np.mean(ws) - 2) <= Z * (2 / math.sqrt(12)) / math.sqrt(edges), lambda: "absolute weights in [1, 3] have mean %r" % np.mean(ws))
    ctx.nontrivial(edges >= 100)


@st.composite
def g01_dyn_case(draw):
    return {"n": draw(st.integers(2, 12)), "p": draw(st.integers(1, 3)), "di": draw(st.sampled_from([0, 1, 3])), "de": draw(st.sampled_from([0, 1, 3])),
            "ti": draw(st.sampled_from(["erdos-renyi", "barabasi-albert", "full"])), "te": draw(st.sampled_from(["erdos-renyi", "full"])),
            "wi": draw(st.sampled_from([[0.5, 0.5], [0.2, 1.5]])), "we": draw(st.sampled_from([[0.5, 0.5], [0.3, 2]])),
            "decay": draw(st.sampled_from([1.0, 1.5, 3])), "seed": draw(st.integers(0, 10 ** 6))}


def check_g01_dyn(c, ctx):
    g = gen()
    np.random.seed(c["seed"])
    n, p = c["n"], c["p"]
    s = g.generate_structure_dynamic(n, p, c["di"], c["de"], c["ti"], c["te"], c["wi"][0], c["wi"][1], c["we"][0], c["we"][1], c["decay"])
    what = "generate_structure_dynamic(%d nodes, lag order %d, %s/%s)" % (n, p, c["ti"], c["te"])
    want = {"%d_lag%d" % (v, l) for v in range(n) for l in range(p + 1)}
    ctx.require(set(s.nodes) == want, lambda: "%s has nodes %r" % (what, sorted(s.nodes)))
    ctx.require(nx.is_directed_acyclic_graph(s), "%s has a cycle" % what)
    intra = inter = 0
    for u, v, w in s.edges.data("weight"):
        i, l = map(int, u.split("_lag"))
        j, z = map(int, v.split("_lag"))
        ctx.require(z == 0, lambda: "%s has the edge %s->%s ending in the past" % (what, u, v))
        lo, hi = c["wi"] if l == 0 else [x / c["decay"] ** (l - 1) for x in c["we"]]
        ctx.require(lo * (1 - 1e-9) <= abs(w) <= hi * (1 + 1e-9), lambda: "%s: edge %s->%s has weight %r, expected between %r and %r" % (what, u, v, w, lo, hi))
        intra += l == 0
        inter += l > 0
    pairs = n * (n - 1) // 2
    if c["ti"] == "full" or (c["ti"] == "erdos-renyi" and c["di"] >= n - 1):
        ctx.require(intra == pairs, "%s has %d edges inside the slice, expected %d" % (what, intra, pairs))
    elif c["di"] == 0:
        ctx.require(intra == 0, "%s has %d edges inside the slice, expected none" % (what, intra))
    if c["te"] == "full" or c["de"] >= n:
        ctx.require(inter == p * n * n, "%s has %d lagged edges, expected %d" % (what, inter, p * n * n))
    elif c["de"] == 0:
        ctx.require(inter == 0, "%s has %d lagged edges, expected none" % (what, inter))
    else:
        q, m = c["de"] / n, p * n * n
        ctx.require(abs(inter - m * q) <= Z * math.sqrt(m * q * (1 - q)), "%s has %d lagged edges, expected about %.1f" % (what, inter, m * q))
    ctx.nontrivial(intra > 0 and inter > 0)


BAD = [["few", dict(num_nodes=1, degree=1)], ["few", dict(num_nodes=0, degree=1)], ["bounds", dict(num_nodes=3, degree=1, w_min=2, w_max=1)],
       ["bounds", dict(num_nodes=3, degree=1, w_min=-2, w_max=1)], ["bounds", dict(num_nodes=3, degree=1, w_min=-2, w_max=-1)],
       ["type", dict(num_nodes=3, degree=1, graph_type="some-type")], ["type", dict(num_nodes=3, degree=1, graph_type="")],
       ["type", dict(num_nodes=3, degree=1, graph_type="Full")]]


@st.composite
def g01_bad_case(draw):
    return {"i": draw(st.integers(0, len(BAD) - 1)), "dyn": draw(st.sampled_from(["", "", "intra", "inter"])), "p": draw(st.integers(1, 2))}


def check_g01_bad(c, ctx):
    g = gen()
    kw = dict(BAD[c["i"]][1])
    if not c["dyn"]:
        expect_raises(ctx, (ValueError,), lambda: g.generate_structure(**kw), "generate_structure(%r)" % kw)
    else:
        a = dict(num_nodes=kw.pop("num_nodes"), p=c["p"], degree_intra=1, degree_inter=1)
        if c["dyn"] == "inter" and min(kw.get("w_min", 1), kw.get("w_max", 1)) < 0:
            ctx.discard()
        for k, v in kw.items():
            if k != "degree":
                a[k + "_" + c["dyn"]] = v
        expect_raises(ctx, (ValueError,), lambda: g.generate_structure_dynamic(**a), "generate_structure_dynamic(%r)" % a)
    ctx.nontrivial()


# ---------------------------------------------------------------- G02
NAMES = ["a", "b", "c", "d", "Z", "x_1", "10", "2", 0, 1, 5, "cc", "y y", "é"]


@st.composite
def sem_case(draw):
    d = draw(st.integers(1, 6))
    names = list(draw(st.permutations(NAMES))[:d])
    large = draw(st.integers(0, 19)) == 0
    if large:       # the order of the nodes is not that of their names
        d = draw(st.integers(11, 14))
        names = draw(st.sampled_from([list(range(d)), ["v%d" % k for k in range(d)], [str(k) for k in range(d)]]))
        names = list(draw(st.permutations(names))) if draw(st.booleans()) else names
    if "c" in names and any(str(x).startswith("c_") for x in names):
        names.remove("c")
    edges = []
    order = draw(st.permutations(range(d)))
    weighted = draw(st.sampled_from(["all", "all", "none", "some"]))
    for a in range(d):
        for b in range(a + 1, d):
            if draw(st.integers(0, 9)) < (1 if large else 5):
                w = draw(st.sampled_from([-1.2, -0.5, 0.3, 0.8, 1.0, 2, 0.0, 0, 1e-6, -25.0]))
                edges.append([order[a], order[b], None if weighted == "none" or (weighted == "some" and draw(st.booleans())) else w])
    types = [draw(st.sampled_from(["continuous", "continuous", "binary", "count", "categorical:2", "categorical:3", "categorical:11", None, None])) for _ in range(d)]
    return {"names": names, "edges": edges, "types": types, "default": draw(st.sampled_from([None, "continuous", "binary", "count", "categorical:3"])),
            "noise": draw(st.sampled_from([0, 0, 0.0, 0.5, 1.0, 3])), "n": draw(st.sampled_from([1, 2, 7, 40, 150])), "intercept": draw(st.booleans()),
            "dist": draw(st.none() | st.fixed_dictionaries({}, optional={
                "continuous": st.sampled_from(["gaussian", "normal", "student-t", "gumbel", "exponential"]), "binary": st.sampled_from(["probit", "normal", "logit"]),
                "categorical": st.sampled_from(["probit", "normal", "logit", "gumbel"]), "weight": st.sampled_from(["uniform", "gaussian", "normal"]),
                "intercept": st.sampled_from(["uniform", "gaussian", "normal"]), "count": st.sampled_from([0, 0.0, 0.05, 0.5, 1, 1.0])})),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "cls": draw(st.sampled_from(["sm", "nx"])), "kernel": None}


def build_graph(c):
    sm = mods.get("structure.structuremodel")
    g = sm.StructureModel() if c["cls"] == "sm" else nx.DiGraph()
    names = c["names"]
    g.add_nodes_from(names)
    for i, j, w in c["edges"]:
        if i < len(names) and j < len(names):
            if w is None:
                g.add_edge(names[i], names[j])
            else:
                g.add_edge(names[i], names[j], weight=w)
    return g


def schema_of(c):
    return {v: t for v, t in zip(c["names"], c["types"]) if t is not None}


def call_sem(c, **over):
    g = gen()
    graph = build_graph(c)
    schema = schema_of(c)
    kw = dict(graph=graph, noise_std=c["noise"], n_samples=c["n"], distributions=None if c["dist"] is None else dict(c["dist"]), seed=c["seed"])
    if schema:
        kw["schema"] = schema
    if c["default"] is not None:
        kw["default_type"] = c["default"]
    if c["kernel"] is None:
        kw["intercept"] = c["intercept"]
        f = g.sem_generator
    else:
        from sklearn.gaussian_process import kernels
        kw["kernel"] = {"rbf": lambda: kernels.RBF(1), "dot": lambda: kernels.DotProduct(sigma_0=1)}[c["kernel"]]()
        f = g.nonlinear_sem_generator
    kw.update(over)
    snap = (list(graph.nodes), copy.deepcopy(list(graph.edges(data=True))), dict(schema), copy.deepcopy(kw["distributions"]))
    df = f(**kw)
    after = (list(graph.nodes), list(graph.edges(data=True)), dict(schema), kw["distributions"])
    return df, graph, snap == after


def layout(c):
    types = {v: (t or c["default"] or "continuous") for v, t in zip(c["names"], c["types"])}
    feats = {v: ["%s_%d" % (v, k) for k in range(int(t.split(":")[1]))] if t.startswith("categorical") else [v] for v, t in types.items()}
    return types, feats


def check_schema(ctx, df, types, feats, n, what):
    want = [f for v in feats for f in feats[v]]
    ctx.require(len(df) == n, lambda: "%s: %d rows instead of %d" % (what, len(df), n))
    ctx.require(len(list(df.columns)) == len(want) and set(df.columns) == set(want), lambda: "%s: columns %r, the schema implies %r" % (what, list(df.columns), want))
    ctx.require(bool(np.isfinite(np.asarray(df.values, dtype=float)).all()), "%s: non-finite values" % what)
    for v, t in types.items():
        col = np.column_stack([np.asarray(df[f].values, dtype=float) for f in feats[v]])
        if t == "binary":
            ctx.require(bool(np.isin(col, (0, 1)).all()), lambda: "%s: binary variable %r has values %r" % (what, v, sorted(set(col[:, 0]))[:6]))
        elif t == "count":
            ctx.require(bool((col >= 0).all() and (col == np.floor(col)).all()), lambda: "%s: count variable %r has values %r" % (what, v, sorted(set(col[:, 0]))[:6]))
        elif t.startswith("categorical"):
            ctx.require(bool(np.isin(col, (0, 1)).all() and (col.sum(axis=1) == 1).all()), lambda: "%s: categorical variable %r is not one-hot: %r" % (what, v, col[:4].tolist()))


def sem_desc(c):
    return "%s(types %r, edges %r, noise %r, n %d, intercept %r, dist %r)" % ("sem_generator" if c["kernel"] is None else "nonlinear_sem_generator",
                                                                          list(zip(c["names"], c["types"])), c["edges"], c["noise"], c["n"], c["intercept"], c["dist"])


def check_sem(c, ctx):
    c["edges"] = [e for e in c["edges"] if max(e[:2]) < len(c["names"])]
    what = sem_desc(c)
    np.random.seed(c["seed"] % 1000 + 7)
    df, graph, same = call_sem(c)
    ctx.require(same, "%s changed the graph, schema or distributions passed in" % what)
    types, feats = layout(c)
    check_schema(ctx, df, types, feats, c["n"], what)
    np.random.seed(3)
    again, _, _ = call_sem(c)
    ctx.require(list(df.columns) == list(again.columns) and bool((df.values == again.values).all()), "%s: the same seed gives different data" % what)
    if any(t == "continuous" and not list(graph.predecessors(v)) for v, t in types.items()):
        other, _, _ = call_sem(c, seed=(c["seed"] + 1) % (2 ** 31))
        ctx.require(not (df.values == other.values).all(), "%s: two different seeds give identical data" % what)
    exact = 0
    rows = {v: np.column_stack([np.asarray(df[f].values, dtype=float) for f in feats[v]]) for v in feats}
    for v in graph.nodes:
        pa = list(graph.predecessors(v))
        if not pa or c["noise"] != 0:
            continue
        P = np.hstack([rows[u] for u in pa])
        ws = [graph.edges[u, v].get("weight") for u in pa]
        plain = all(w is not None for w in ws) and not any(types[u].startswith("categorical") for u in pa)
        y = rows[v][:, 0]
        if types[v] == "continuous":
            scale = max(1.0, np.abs(y).max())
            if plain:
                r = y - sum(w * rows[u][:, 0] for u, w in zip(pa, ws))
                if c["intercept"]:
                    ctx.require(np.ptp(r) <= 1e-9 * scale, lambda: "%s: %r minus the weighted sum of its parents %r is not constant: %r" % (what, v, pa, r[:5].tolist()))
                else:
                    ctx.require(np.abs(r).max() <= 1e-9 * scale, lambda: "%s: %r differs from the weighted sum of its parents %r by %r" % (what, v, pa, np.abs(r).max()))
            A = np.hstack([P, np.ones((len(P), 1))]) if c["intercept"] else P
            fit = A @ np.linalg.lstsq(A, y, rcond=None)[0]
            ctx.require(np.abs(fit - y).max() <= 1e-6 * scale, lambda: "%s: %r is not a linear function of its parents %r" % (what, v, pa))
            exact += 1
        elif types[v] == "binary" and plain and not c["intercept"]:
            m = sum(w * rows[u][:, 0] for u, w in zip(pa, ws))
            want = m > 0
            safe = np.abs(m) > 1e-9
            if 0.05 <= want.mean() <= 0.95 and safe.all():
                ctx.require(bool((y == want).all()), lambda: "%s: binary %r is not the sign of the weighted sum of its parents" % (what, v))
                exact += 1
        elif types[v].startswith("categorical"):
            cat = rows[v].argmax(axis=1)
            seen = {}
            for r, k in zip(map(tuple, P), cat):
                ctx.require(seen.setdefault(r, k) == k, lambda: "%s: categorical %r differs between rows with equal parents" % (what, v))
            exact += 1
    # declared weights of a categorical parent act on exactly one of its categories
    if c["noise"] == 0:
        for v in graph.nodes:
            pa = list(graph.predecessors(v))
            if types[v] != "continuous" or len(pa) != 1 or not types[pa[0]].startswith("categorical"):
                continue
            w = graph.edges[pa[0], v].get("weight")
            if w is None:
                continue
            k = rows[pa[0]].argmax(axis=1)
            vals = {}
            for cat, y in zip(k, rows[v][:, 0]):
                vals.setdefault(cat, set()).add(round(float(y), 9))
            ctx.require(all(len(s) == 1 for s in vals.values()), lambda: "%s: %r is not a function of %r" % (what, v, pa[0]))
            distinct = sorted({next(iter(s)) for s in vals.values()})
            cats = int(rows[pa[0]].shape[1])
            if len(vals) == cats and abs(w) > 1e-6:
                ctx.require(len(distinct) == 2 and min([list(vals.values()).count({x}) for x in distinct]) == 1,
                            lambda: "%s: the weight %r of %r on %r should act on one of its %d categories; the effects are %r" % (what, w, pa[0], v, cats, vals))
            ctx.require(len(distinct) <= 2 and (len(distinct) < 2 or abs(abs(distinct[1] - distinct[0]) - abs(w)) < 1e-6), lambda: "%s: effect of %r on %r is %r, the weight is %r" % (what, pa[0], v, distinct, w))
            if not c["intercept"]:
                ctx.require(all(abs(x) < 1e-6 or abs(x - w) < 1e-6 for x in distinct), lambda: "%s: effect of %r on %r is %r, the weight is %r" % (what, pa[0], v, distinct, w))
    ctx.label("intercept", c["intercept"])
    ctx.label("noise off", c["noise"] == 0)
    ctx.count("variables checked exactly against their parents", exact)
    ctx.nontrivial(exact > 0)


# -------- noise distributions
@st.composite
def noise_case(draw):
    c = {"names": ["a", "b", "c"], "edges": [[0, 1, draw(st.sampled_from([0.7, -1.5]))], [0, 2, draw(st.sampled_from([0.4, 1.0]))], [1, 2, draw(st.sampled_from([-0.6, 0.5]))]],
         "types": [draw(st.sampled_from(["continuous", "continuous", "binary", "categorical:3", "count"])), draw(st.sampled_from(["continuous", "binary", "count"])),
                   draw(st.sampled_from(["continuous", "binary", "count"]))],
         "default": None, "noise": draw(st.sampled_from([0.5, 1.0, 2.5])), "n": 3000, "intercept": False, "seed": draw(st.integers(0, 2 ** 31 - 1)), "cls": "sm", "kernel": None,
         "dist": {"continuous": draw(st.sampled_from(["gaussian", "normal", "student-t", "gumbel", "exponential"])), "binary": draw(st.sampled_from(["probit", "normal", "logit"])),
                  "categorical": draw(st.sampled_from(["probit", "logit", "gumbel"])), "count": draw(st.sampled_from([0, 0.1, 0.4]))}}
    if c["types"][1] == "count" and draw(st.booleans()):
        c["edges"][0][2] = draw(st.sampled_from([12.0, 60.0, 300.0]))     # large counts
    return c


MOM = {"gaussian": (0, 1), "normal": (0, 1), "student-t": (0, 5 / 3), "gumbel": (0.5772156649, math.pi ** 2 / 6), "exponential": (1, 1)}


def phi(x):
    from scipy.special import ndtr
    return ndtr(x)


def law(name):
    from scipy import stats
    return {"gaussian": stats.norm, "normal": stats.norm, "student-t": stats.t(5), "gumbel": stats.gumbel_r, "exponential": stats.expon,
            "uniform": stats.uniform(-math.sqrt(3), 2 * math.sqrt(3))}[name]


KS = 3.5    # the Kolmogorov-Smirnov distance times the root of the sample size; exceeded with probability below 1e-10


def ks(x, name):
    x = np.sort(np.asarray(x, dtype=float))
    n = len(x)
    f = law(name).cdf(x)
    return math.sqrt(n) * max(float(np.max(np.arange(1, n + 1) / n - f)), float(np.max(f - np.arange(n) / n)))


def check_noise(c, ctx):
    what = sem_desc(c)
    df, graph, _ = call_sem(c)
    types, feats = layout(c)
    check_schema(ctx, df, types, feats, c["n"], what)
    n = c["n"]
    col = {v: np.asarray(df[feats[v][0]].values, dtype=float) for v in feats}
    tested = 0
    for v in graph.nodes:
        pa = list(graph.predecessors(v))
        t = types[v]
        if any(types[u].startswith("categorical") for u in pa):
            continue
        m = sum((graph.edges[u, v]["weight"] * col[u] for u in pa), np.zeros(n))
        s = c["noise"] if pa else 1.0
        y = col[v]
        if t == "continuous":
            mu, var = MOM[c["dist"]["continuous"]]
            r = (y - m) / s
            se = math.sqrt(var / n)
            ctx.require(abs(r.mean() - mu) <= Z * se, lambda: "%s: the noise of %r has mean %.4f times the requested scale, expected %.4f" % (what, v, r.mean(), mu))
            slack = 0.6 if c["dist"]["continuous"] == "student-t" else 0.35
            ctx.require(abs(r.var() / var - 1) <= slack, lambda: "%s: the noise of %r has variance %.4f (in units of the scale), expected %.4f" % (what, v, r.var(), var))
            if c["dist"]["continuous"] == "exponential":
                ctx.require(r.min() >= -1e-9, "%s: exponential noise of %r is negative" % (what, v))
            dist = ks(r, c["dist"]["continuous"])
            ctx.require(dist <= KS, lambda: "%s: the noise of %r does not follow the requested distribution: the Kolmogorov-Smirnov distance times the root of the rows is %.2f" % (what, v, dist))
            tested += 1
        elif t == "binary":
            p = 1 / (1 + np.exp(-m / s)) if c["dist"]["binary"] == "logit" else phi(m / s)
            if not 0.1 <= p.mean() <= 0.9:
                continue
            for sel, lab in ((np.ones(n, bool), "all rows"), (m > np.median(m), "rows with a high parent sum"), (m <= np.median(m), "rows with a low parent sum")):
                q, k = p[sel], sel.sum()
                if k < 200:
                    continue
                z = (y[sel].sum() - q.sum()) / math.sqrt((q * (1 - q)).sum() + 1)
                ctx.require(abs(z) <= Z, lambda: "%s: %r is one in %d of %d (%s), expected %.1f" % (what, v, y[sel].sum(), k, lab, q.sum()))
            tested += 1
        elif t == "count":
            pct = c["dist"]["count"]
            if pa:
                lam = np.where(m < 0, np.exp(np.minimum(m, 0)), m)
                mean, var = (1 - pct) * lam, (1 - pct) * lam * (1 + pct * lam)
                p0 = pct + (1 - pct) * np.exp(-lam)
            else:
                mean, var = np.full(n, (1 - pct) * 0.5), np.full(n, 1.0)
                p0 = np.full(n, pct + (1 - pct) * (1 - math.exp(-1)))
            if mean.max() > 1500:      # sampling stops at 5000
                continue
            z = (y.sum() - mean.sum()) / math.sqrt(var.sum() + 4)
            ctx.require(abs(z) <= Z, lambda: "%s: counts of %r sum to %d, expected %.1f" % (what, v, y.sum(), mean.sum()))
            z = ((y == 0).sum() - p0.sum()) / math.sqrt((p0 * (1 - p0)).sum() + 4)
            ctx.require(abs(z) <= Z, lambda: "%s: %d zeros in %r, expected %.1f" % (what, (y == 0).sum(), v, p0.sum()))
            tested += 1
        elif t.startswith("categorical") and not pa:
            k = len(feats[v])
            for f in feats[v]:
                x = np.asarray(df[f].values, dtype=float).sum()
                ctx.require(abs(x - n / k) <= Z * math.sqrt(n / k), lambda: "%s: category %r appears %d times, expected about %.0f" % (what, f, x, n / k))
            tested += 1
    ctx.count("noise distributions tested", tested)
    ctx.label("types %s" % ",".join(x.split(":")[0] for x in c["types"]))
    ctx.nontrivial(tested > 1)


# -------- weights, intercepts and zero-inflation left to the generator
@st.composite
def random_weight_case(draw):
    dist = {}
    for k in ("weight", "intercept"):
        v = draw(st.sampled_from([None, "uniform", "gaussian", "normal"]))
        if v:
            dist[k] = v
    return {"k": draw(st.integers(20, 60)), "cats": draw(st.sampled_from([0, 2, 4])), "dist": dist or draw(st.sampled_from([None, {}])), "seed": draw(st.integers(0, 2 ** 30)),
            "what": draw(st.sampled_from(["weights", "weights", "counts"]))}


def check_random_weights(c, ctx):
    g, sm = gen(), mods.get("structure.structuremodel")
    dist = c["dist"]
    if c["what"] == "counts":       # the documented default of the sampler: five per cent of the counts are set to zero
        graph = sm.StructureModel()
        graph.add_edge("a", "b", weight=4.0)
        n = 30000
        df = g.sem_generator(graph, schema={"a": "binary", "b": "count"}, intercept=False, n_samples=n, seed=c["seed"], distributions=dist)
        on = np.asarray(df["a"].values, dtype=float) == 1
        zero = float((np.asarray(df["b"].values, dtype=float)[on] == 0).sum())
        p0 = 0.05 + 0.95 * math.exp(-4.0)
        ctx.require(abs(zero - on.sum() * p0) <= Z * math.sqrt(on.sum() * p0 * (1 - p0)), lambda: "sem_generator without a zero-inflation factor (distributions %r): %d of %d counts of mean 4 are zero, expected about %.0f" % (dist, zero, on.sum(), on.sum() * p0))
        ctx.label("default zero-inflation")
        ctx.nontrivial()
        return
    ws, bs, k = [], [], c["k"]
    for rep in range(8):
        graph = sm.StructureModel()
        graph.add_edges_from([("root", "v%d" % i) for i in range(k)])
        df = g.sem_generator(graph, schema={"root": "categorical:%d" % c["cats"]} if c["cats"] else None, noise_std=0, intercept=True, n_samples=60, seed=c["seed"] + rep, distributions=dist)
        names = ["root_%d" % i for i in range(c["cats"])] if c["cats"] else ["root"]
        P = np.column_stack([np.asarray(df[v].values, dtype=float) for v in names])
        Y = np.column_stack([np.asarray(df["v%d" % i].values, dtype=float) for i in range(k)])
        if c["cats"]:       # the effect of a category is only determined together with the intercept
            for j in range(c["cats"]):
                on = P[:, j] == 1
                if not on.any():
                    ctx.discard()
            E = np.array([Y[P[:, j] == 1][0] for j in range(c["cats"])])
            ws.append(np.diff(E, axis=0)[0] / math.sqrt(2))
        else:
            A = np.hstack([P, np.ones((len(P), 1))])
            sol = np.linalg.lstsq(A, Y, rcond=None)[0]
            ctx.require(np.abs(A @ sol - Y).max() < 1e-8, "a child of a continuous parent is not linear in it")
            ws.append(sol[0])
            bs.append(sol[1])
    for lab, key, x in (("weights", "weight", ws), ("intercepts", "intercept", bs)):
        if not x:
            continue
        rows = np.concatenate(x)
        n = len(rows)
        name = (dist or {}).get(key, "uniform")
        what = "sem_generator with edges without weights (distributions %r): the %d %s" % (dist, n, lab)
        ctx.require(len(set(np.round(rows, 9))) == n, lambda: "%s of different edges and seeds are not all different: %d values" % (what, len(set(np.round(rows, 9)))))
        ctx.require(abs(rows.mean()) <= Z / math.sqrt(n), lambda: "%s have mean %.3f, expected about 0" % (what, rows.mean()))
        ctx.require(abs(rows.var() - 1) <= Z * math.sqrt(2 / n), lambda: "%s have variance %.3f, expected about 1" % (what, rows.var()))
        if not c["cats"]:
            if name == "uniform":
                ctx.require(np.abs(rows).max() <= math.sqrt(3) + 1e-6, lambda: "%s reach %r, beyond the range of the uniform distribution of unit variance" % (what, np.abs(rows).max()))
            dd = ks(rows, name)
            ctx.require(dd <= KS, lambda: "%s do not follow the %s distribution: the Kolmogorov-Smirnov distance times the root of their number is %.2f" % (what, name, dd))
    ctx.label("categorical root", c["cats"] > 0)
    ctx.label("weights %s" % (dist or {}).get("weight", "by default"))
    ctx.nontrivial()


# -------- nonlinear
@st.composite
def nonlinear_case(draw):
    c = draw(sem_case())
    c["kernel"] = draw(st.sampled_from(["rbf", "dot"]))
    c["n"] = draw(st.sampled_from([2, 20, 60, 130, 250]))
    c["names"] = c["names"][:4]
    c["types"] = [("categorical:3" if t == "categorical:11" else t) for t in c["types"][:4]]
    if c["dist"]:
        c["dist"].pop("weight", None)
        c["dist"].pop("intercept", None)
    return c


def check_nonlinear(c, ctx):
    c["edges"] = [e for e in c["edges"] if max(e[:2]) < len(c["names"])]
    what = sem_desc(c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df, graph, same = call_sem(c)
        ctx.require(same, "%s changed its inputs" % what)
        types, feats = layout(c)
        # a parent that is constant in the sample makes the latent variable degenerate: unspecified
        rows = {v: np.column_stack([np.asarray(df[f].values, dtype=float) for f in feats[v]]) for v in feats}
        if any(np.ptp(np.hstack([rows[u] for u in graph.predecessors(v)]), axis=0).max() == 0 for v in graph.nodes if list(graph.predecessors(v))):
            ctx.discard()
        check_schema(ctx, df, types, feats, c["n"], what)
        np.random.seed(3)
        again, _, _ = call_sem(c)
    ctx.require(bool((df.values == again.values).all()), "%s: the same seed gives different data" % what)
    exact = 0
    if c["noise"] == 0:
        for v in graph.nodes:
            pa = list(graph.predecessors(v))
            if not pa or types[v] != "continuous":
                continue
            y = rows[v][:, 0]
            P = np.hstack([rows[u] for u in pa])
            ctx.require(abs(y.std() - 1) < 1e-6, lambda: "%s: without noise %r has standard deviation %r instead of 1" % (what, v, y.std()))
            exact += 1
            if c["kernel"] == "dot" and c["n"] <= 100:
                A = np.hstack([P, np.ones((len(P), 1))])
                fit = A @ np.linalg.lstsq(A, y, rcond=None)[0]
                ctx.require(np.abs(fit - y).max() < 1e-3 * max(1, np.abs(y).max()), lambda: "%s: with a linear kernel %r is not a linear function of its parents" % (what, v))
            if c["kernel"] == "rbf" and P.shape[1] == 1 and types[pa[0]] == "continuous" and c["n"] >= 60:
                o = np.argsort(P[:, 0])
                x, z = P[o, 0], y[o]
                close = np.diff(x) < 0.15
                if close.sum() >= 30:
                    rough = float(np.mean(np.diff(z)[close] ** 2))
                    ctx.require(rough < 0.5, lambda: "%s: %r is not a smooth function of its parent (mean squared jump between close points %.3f of variance 1)" % (what, v, rough))
                    ctx.label("smoothness checked" + (" over chunks" if c["n"] > 100 else ""))
    ctx.label("kernel %s" % c["kernel"])
    ctx.nontrivial(exact > 0)


# -------- wrappers
@st.composite
def wrapper_case(draw):
    c = draw(sem_case())
    c["types"] = [None] * len(c["names"])
    c["fn"] = draw(st.sampled_from(["continuous_data", "binary_data", "continuous_dataframe", "binary_dataframe", "count_dataframe", "categorical_dataframe"]))
    c["k"] = draw(st.sampled_from([2, 3, 5, 10]))
    c["kernel"] = draw(st.sampled_from([None, None, "rbf", "dot"]))
    c["n"] = draw(st.sampled_from([5, 30]))
    c["d1"] = draw(st.sampled_from(["gaussian", "normal", "student-t", "gumbel", "exponential"]))
    c["d2"] = draw(st.sampled_from(["probit", "normal", "logit"]))
    c["d3"] = draw(st.sampled_from(["probit", "normal", "logit", "gumbel"]))
    c["zif"] = draw(st.sampled_from([0.0, 0.1, 0.6]))
    return c


def check_wrapper(c, ctx):
    c["edges"] = [e for e in c["edges"] if max(e[:2]) < len(c["names"])]
    g = gen()
    graph = build_graph(c)
    kind = c["fn"].split("_")[0]
    kw = dict(n_samples=c["n"], intercept=c["intercept"], seed=c["seed"])
    ref = dict(c)
    ref["default"] = {"categorical": "categorical:%d" % c["k"]}.get(kind, kind)
    if c["kernel"]:
        from sklearn.gaussian_process import kernels
        kw["kernel"] = {"rbf": lambda: kernels.RBF(1), "dot": lambda: kernels.DotProduct(sigma_0=1)}[c["kernel"]]()
    if kind == "count":
        kw["zero_inflation_factor"] = c["zif"]
        ref["dist"] = {"count": c["zif"]}
        ref["noise"] = 1
    else:
        kw["distribution"] = c[{"continuous": "d1", "binary": "d2", "categorical": "d3"}[kind]]
        kw["noise_scale"] = c["noise"]
        ref["dist"] = {kind: kw["distribution"]}
        if kind == "categorical":
            kw["n_categories"] = c["k"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = getattr(g, "generate_" + c["fn"])(graph, **kw)
        want, _, _ = call_sem(ref)
    what = "generate_%s(%r)" % (c["fn"], {k: v for k, v in kw.items() if k != "kernel"})
    if c["fn"].endswith("data"):
        W = want[list(graph.nodes())].values
        ctx.require(got.shape == W.shape and bool((got == W).all()), "%s differs from the general generator with the same seed (columns in the order of the nodes)" % what)
    else:
        ctx.require(list(got.columns) == list(want.columns) and bool((got.values == want.values).all()), "%s differs from the general generator with the same seed" % what)
    ctx.label(c["fn"])
    ctx.nontrivial(bool(c["edges"]))


@st.composite
def sem_bad_case(draw):
    c = draw(sem_case())
    c["bad"] = draw(st.sampled_from(["cycle", "self-loop", "continuous", "binary", "categorical", "count", "weight", "intercept", "type"]))
    c["value"] = draw(st.sampled_from(["unknown", "", "Normal", "poisson"]))
    c["zif"] = draw(st.sampled_from([-0.1, 1.1, 2, "0.1", "unknown"]))
    c["kernel"] = draw(st.sampled_from([None, None, "rbf"]))
    c["n"] = 10
    return c


def check_sem_bad(c, ctx):
    names = c["names"]
    c["edges"] = [e for e in c["edges"] if max(e[:2]) < len(names)]
    bad = c["bad"]
    if bad == "cycle":
        if len(names) < 2:
            ctx.discard()
        pairs = {(e[0], e[1]) for e in c["edges"]}
        c["edges"] += [e for e in ([0, 1, 1.0], [1, 0, 1.0]) if (e[0], e[1]) not in pairs]
    elif bad == "self-loop":
        c["edges"].append([0, 0, 1.0])
    elif bad in ("continuous", "binary", "categorical"):
        c["types"][-1 % len(names)] = "categorical:3" if bad == "categorical" else bad
        c["types"] = c["types"][:len(names)]
        c["types"][0] = "categorical:3" if bad == "categorical" else bad
        c["dist"] = dict(c["dist"] or {}, **{bad: c["value"]})
    elif bad == "count":
        c["types"][0] = "count"
        c["dist"] = dict(c["dist"] or {}, count=c["zif"])
    elif bad == "weight":
        if not c["edges"] or c["kernel"]:
            ctx.discard()
        c["edges"][0][2] = None
        c["dist"] = dict(c["dist"] or {}, weight=c["value"])
    elif bad == "intercept":
        if c["kernel"]:
            ctx.discard()
        c["intercept"] = True
        c["dist"] = dict(c["dist"] or {}, intercept=c["value"])
    else:
        c["types"][0] = "unsupported"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect_raises(ctx, (ValueError,), lambda: call_sem(c), "%s with invalid %s" % (sem_desc(c), bad))
    ctx.label("invalid " + bad)
    ctx.nontrivial()


# ---------------------------------------------------------------- G03
VNAMES = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "b", "a", "Z", "x_1"]


@st.composite
def g03_case(draw):
    d = draw(st.integers(1, 4) | st.integers(1, 12))
    p = draw(st.integers(1, 3))
    names = list(draw(st.permutations(VNAMES))[:d]) if draw(st.booleans()) else [str(k) for k in range(d)]
    return {"names": names, "p": p, "seed": draw(st.integers(0, 10 ** 6)), "dens": draw(st.sampled_from([0.2, 0.5, 1.0])), "n": draw(st.sampled_from([1, 3, 12, 40])),
            "burn": draw(st.sampled_from([0, 0, 1, 7])), "noise": draw(st.sampled_from([0, 0, 0.5, 1.0])), "sem": draw(st.sampled_from(["linear-gauss", "linear-exp", "linear-gumbel"])),
            "drift": draw(st.booleans()), "shuffle": draw(st.booleans())}


def dyn_graph(c):
    sm = mods.get("structure.structuremodel")
    r = np.random.RandomState(c["seed"])
    names, p = c["names"], c["p"]
    d = len(names)
    nodes = ["%s_lag%d" % (v, l) for v in names for l in range(p + 1)]
    if c["shuffle"]:
        nodes = [nodes[k] for k in r.permutation(len(nodes))]
    g = sm.StructureModel()
    g.add_nodes_from(nodes)
    order = r.permutation(d)
    es = []
    for a in range(d):
        for b in range(a + 1, d):
            if r.rand() < c["dens"]:
                es.append(("%s_lag0" % names[order[a]], "%s_lag0" % names[order[b]], float(r.choice([-1, 1]) * r.uniform(0.2, 1) / max(1, d / 3))))
    for l in range(1, p + 1):
        for i in range(d):
            for j in range(d):
                if r.rand() < c["dens"]:
                    es.append(("%s_lag%d" % (names[i], l), "%s_lag0" % names[j], float(r.choice([-1, 1]) * r.uniform(0.2, 1) * 1.2 / (d * p))))
    es = [es[k] for k in r.permutation(len(es))]
    g.add_weighted_edges_from(es)
    return g, es, r


def check_lags(ctx, df, names, p, burn0, what):
    col = {c: np.asarray(df[c].values, dtype=float) for c in df.columns}
    for v in names:
        for l in range(1, p + 1):
            x, y = col["%s_lag%d" % (v, l)], col["%s_lag0" % v]
            k = min(l, len(y))
            ctx.require(bool((x[k:] == y[:len(y) - k]).all()), lambda: "%s: %s_lag%d is not %s_lag0 %d steps earlier: %r against %r" % (what, v, l, v, l, x[k:k + 4].tolist(), y[:4].tolist()))
            if burn0:
                ctx.require(bool((x[:k] == 0).all()), lambda: "%s: %s_lag%d is not zero before the start" % (what, v, l))
    return col


def check_g03(c, ctx):
    m = gen()
    g, es, r = dyn_graph(c)
    names, p = c["names"], c["p"]
    intra = sorted("%s_lag0" % v for v in names)
    drift = r.uniform(0.5, 2, size=len(names)) * r.choice([-1, 1], size=len(names)) if c["drift"] or c["noise"] == 0 else None
    snap = copy.deepcopy(list(g.edges(data=True)))
    np.random.seed(c["seed"])
    df = m.generate_dataframe_dynamic(g, n_samples=c["n"], burn_in=c["burn"], sem_type=c["sem"], noise_scale=c["noise"], drift=None if drift is None else drift.copy())
    what = "%d variables, lag order %d" % (len(names), p)
    ctx.require(snap == list(g.edges(data=True)), "the structure was modified")
    want = {"%s_lag%d" % (v, l) for v in names for l in range(p + 1)}
    ctx.require(set(df.columns) == want and len(list(df.columns)) == len(want), lambda: "%s: columns are %r" % (what, list(df.columns)))
    ctx.require(len(df) == c["n"], "%s: %d rows instead of %d" % (what, len(df), c["n"]))
    col = check_lags(ctx, df, names, p, c["burn"] == 0, what)
    dr = dict(zip(intra, drift)) if drift is not None else {}
    for v in intra:
        mean = sum((w * col[u] for u, x, w in es if x == v), np.zeros(c["n"])) + dr.get(v, 0)
        res = col[v] - mean
        scale = max(1.0, np.abs(col[v]).max())
        if c["noise"] == 0:
            ctx.require(np.abs(res).max() <= 1e-8 * scale, lambda: "%s: %s is not drift plus the weighted sum of its parents; off by up to %r; edges %r" % (what, v, np.abs(res).max(), [e for e in es if e[1] == v]))
        else:
            if c["sem"] == "linear-exp":
                ctx.require(res.min() >= -1e-8 * scale, lambda: "%s: exponential noise of %s is negative (%r)" % (what, v, res.min()))
            k = c["n"]
            mu = c["noise"] * {"linear-gauss": 0, "linear-exp": 1, "linear-gumbel": 0.5772156649}[c["sem"]]
            sd = c["noise"] * {"linear-gauss": 1, "linear-exp": 1, "linear-gumbel": math.pi / math.sqrt(6)}[c["sem"]]
            ctx.require(abs(res.mean() - mu) <= 14 * sd / math.sqrt(k), lambda: "%s: the noise of %s has mean %r, expected %r" % (what, v, res.mean(), mu))
            if k >= 40:
                ctx.require(0.15 < res.std() / sd < 3, lambda: "%s: the noise of %s has standard deviation %r, expected about %r" % (what, v, res.std(), sd))
    np.random.seed(c["seed"])
    df2 = m.generate_dataframe_dynamic(g, n_samples=c["n"], burn_in=c["burn"], sem_type=c["sem"], noise_scale=c["noise"], drift=None if drift is None else drift.copy())
    ctx.require(bool((df.values == df2.values).all()), "%s: the same random seed gives different data" % what)
    ctx.label("lag order %d" % p)
    ctx.label("ten variables or more", len(names) >= 10)
    ctx.label("noise off", c["noise"] == 0)
    ctx.nontrivial(p > 1 and len(names) > 1 and c["n"] > 3 and bool(es))


@st.composite
def g03_noise_case(draw):
    return {"names": ["a", "b"], "p": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 10 ** 6)), "dens": draw(st.sampled_from([0.5, 1.0])), "noise": draw(st.sampled_from([None, 0.3, 1.0, 4.0])),
            "sem": draw(st.sampled_from([None, "linear-gauss", "linear-exp", "linear-gumbel"])), "shuffle": draw(st.booleans())}


def check_g03_noise(c, ctx):
    m = gen()
    g, es, r = dyn_graph(c)
    kw = {}
    if c["noise"] is not None:
        kw["noise_scale"] = c["noise"]
    if c["sem"] is not None:
        kw["sem_type"] = c["sem"]
    np.random.seed(c["seed"])
    n = 900
    df = m.generate_dataframe_dynamic(g, n_samples=n, **kw)
    col = check_lags(ctx, df, c["names"], c["p"], False, "dynamic data")
    name = {"linear-gauss": "gaussian", "linear-exp": "exponential", "linear-gumbel": "gumbel"}[c["sem"] or "linear-gauss"]
    if np.abs(df.values).max() > 1e5:       # an explosive structure: the noise is lost in rounding
        ctx.discard()
    res = []
    for v in c["names"]:
        v = "%s_lag0" % v
        res.append((col[v] - sum((w * col[u] for u, x, w in es if x == v), np.zeros(n))) / (1 if c["noise"] is None else c["noise"]))
    for v, x in zip(c["names"], res):
        d = ks(x, name)
        ctx.require(d <= KS, lambda: "%r: the noise of %r does not follow the %s distribution of that scale: the Kolmogorov-Smirnov distance times the root of the rows is %.2f (mean %.3f, standard deviation %.3f in units of the scale)" % (kw, v, name, d, x.mean(), x.std()))
        for other, y in (("the same variable one step earlier", x[:-1]), ("the other variable", res[1 - c["names"].index(v)][1:])):
            rho = float(np.corrcoef(x[1:], y)[0, 1])
            ctx.require(abs(rho) <= Z / math.sqrt(n), lambda: "%r: the noise of %r has correlation %.3f with the noise of %s" % (kw, v, rho, other))
    ctx.label("noise %s" % (c["sem"] or "by default"))
    ctx.nontrivial(bool(es))


@st.composite
def g03_stat_case(draw):
    return {"n": draw(st.integers(2, 6) | st.just(11)), "p": draw(st.integers(1, 3)), "rows": draw(st.sampled_from([20, 60])), "seed": draw(st.integers(0, 10 ** 6)),
            "di": draw(st.sampled_from([1, 2, 1, 2, 0])), "de": draw(st.sampled_from([1, 2, 1, 2, 0])), "trials": draw(st.sampled_from([20, 20, 1, 2, 3])),
            "gti": draw(st.sampled_from(["erdos-renyi", "erdos-renyi", "full"])), "gte": draw(st.sampled_from(["erdos-renyi", "erdos-renyi", "full"])), "sem": draw(st.sampled_from(["linear-gauss", "linear-exp", "linear-gumbel"])),
            "noise": draw(st.sampled_from([0.5, 1])), "decay": draw(st.sampled_from([1.0, 2])), "wmax": draw(st.sampled_from([0.3, 0.5, 0.3, 0.5, 2.0, 30.0]))}


def check_g03_stat(c, ctx):
    m = gen()
    np.random.seed(c["seed"])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        g, df, intra, inter = m.gen_stationary_dyn_net_and_df(
            num_nodes=c["n"], n_samples=c["rows"], p=c["p"], degree_intra=c["di"], degree_inter=c["de"], w_min_intra=0.2, w_max_intra=c["wmax"], w_min_inter=0.1,
            w_max_inter=c["wmax"], w_decay=c["decay"], sem_type=c["sem"], noise_scale=c["noise"], max_data_gen_trials=c["trials"],
            graph_type_intra=c["gti"], graph_type_inter=c["gte"])
    names = [str(k) for k in range(c["n"])]
    what = "stationary data, %d variables, lag order %d" % (c["n"], c["p"])
    ctx.require(set(intra) == {"%s_lag0" % v for v in names} and len(intra) == c["n"], lambda: "%s: intra nodes %r" % (what, intra))
    ctx.require(set(inter) == {"%s_lag%d" % (v, l) for v in names for l in range(1, c["p"] + 1)} and len(inter) == c["n"] * c["p"], lambda: "%s: inter nodes %r" % (what, inter))
    ctx.require(set(g.nodes) == set(intra) | set(inter) and nx.is_directed_acyclic_graph(g), "%s: wrong nodes or a cycle" % what)
    ctx.require(list(df.columns) == list(intra) + list(inter), lambda: "%s: columns are %r" % (what, list(df.columns)))
    ctx.require(len(df) == c["rows"] and list(df.index) == list(range(c["rows"])), lambda: "%s: %d rows, index %r" % (what, len(df), list(df.index)[:3]))
    if any("Could not simulate" in str(w.message) for w in ws):
        ctx.require(bool((df.values == 1).all()), "%s: a warning announces a constant table, but it is not" % what)
        ctx.label("gave up")
        return
    ctx.require(bool(np.abs(df.values).max() < 1e3), "%s: values reach %r" % (what, np.abs(df.values).max()))
    if c["di"] and c["de"]:
        ctx.require(any(u in intra for u, v in g.edges) and any(u in inter for u, v in g.edges), "%s: no edge within or between time slices" % what)
    ctx.label("explosive weights, but stationary", c["wmax"] > 1)
    col = check_lags(ctx, df, names, c["p"], False, what)
    sd = c["noise"] * {"linear-gauss": 1, "linear-exp": 1, "linear-gumbel": math.pi / math.sqrt(6)}[c["sem"]]
    for v in intra:
        res = col[v] - sum((d["weight"] * col[u] for u, x, d in g.in_edges(v, data=True)), np.zeros(c["rows"]))
        if c["sem"] == "linear-exp":
            ctx.require(res.min() >= -1e-8, lambda: "%s: exponential noise of %s is negative (%r)" % (what, v, res.min()))
        ctx.require(res.std() < 3.5 * sd + 1e-9 * np.abs(df.values).max(), lambda: "%s: %s deviates from the weighted sum of its parents by %r, the noise is %r" % (what, v, res.std(), sd))
    ctx.nontrivial(c["p"] > 1)


@st.composite
def g03_bad_case(draw):
    return {"sem": draw(st.sampled_from(["linear", "gauss", "", "linear-Gauss", "exp"])), "p": draw(st.integers(1, 2))}


def check_g03_bad(c, ctx):
    m = gen()
    g, _, _ = dyn_graph({"seed": 1, "names": ["a", "b"], "p": c["p"], "dens": 1.0, "shuffle": False})
    expect_raises(ctx, (ValueError,), lambda: m.generate_dataframe_dynamic(g, n_samples=3, sem_type=c["sem"]), "sem_type %r" % c["sem"])
    ctx.nontrivial()


PROPS = {
    "G01": lambda: Prop("G01", [Leg("structure", g01_case, check_g01, 4000), Leg("distribution", g01_stat_case, check_g01_stat, 120),
                                Leg("dynamic", g01_dyn_case, check_g01_dyn, 800), Leg("rejections", g01_bad_case, check_g01_bad, 60, 100)], ""),
    "G02": lambda: Prop("G02", [Leg("linear", sem_case, check_sem, 2400), Leg("noise", noise_case, check_noise, 400), Leg("random weights", random_weight_case, check_random_weights, 120), Leg("nonlinear", nonlinear_case, check_nonlinear, 400),
                                Leg("wrappers", wrapper_case, check_wrapper, 800), Leg("rejections", sem_bad_case, check_sem_bad, 600)], ""),
    "G03": lambda: Prop("G03", [Leg("equations", g03_case, check_g03, 1200), Leg("noise", g03_noise_case, check_g03_noise, 240), Leg("stationary", g03_stat_case, check_g03_stat, 240), Leg("rejections", g03_bad_case, check_g03_bad, 24, 48)], ""),
}
