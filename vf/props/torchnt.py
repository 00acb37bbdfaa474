"""T01-T07 (the pytorch structure learner and its distribution types)."""
import copy
import logging
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import glm, mods
from ..core import many_rows, Leg, Prop, expect_raises
from .learn import LABELS

KINDS = ["cont", "cont", "bin", "poiss", "cat", "ord"]


# ---------------------------------------------------------------- data
def make_data(c):
    """Mixed-type data of a compact case (float64)."""
    r = np.random.RandomState(c["seed"])
    kinds, n = c["kinds"], c["n"]
    d = len(kinds)
    order = r.permutation(d)
    X = np.zeros((n, d))
    S = np.zeros((n, d))
    for k, j in enumerate(order):
        z = np.zeros(n)
        for i in order[:k]:
            if r.rand() < c["dens"]:
                z = z + r.choice([-1, 1]) * r.uniform(0.4, 1.2) * S[:, i]
        kind = kinds[j]
        if kind == "cont":
            X[:, j] = S[:, j] = z + r.randn(n)
            X[:, j] = X[:, j] * c.get("scale", 1) + c.get("shift", 0)
        elif kind == "bin":
            X[:, j] = r.rand(n) < 1 / (1 + np.exp(-1.2 * z))
            X[:2, j] = 0, 1
            S[:, j] = 2 * X[:, j] - 1
        elif kind == "poiss":
            X[:, j] = r.poisson(np.exp(np.clip(0.4 * z, -3, 1.5) + 0.3))
            S[:, j] = (X[:, j] - 1.3) / 1.5
        else:
            m = c.get("classes") or 2 + (c["seed"] + j) % 3
            if kind == "cat":
                B = r.randn(m, 2)
                u = z[:, None] * B[None, :, 0] + B[None, :, 1] * 0.5 + r.gumbel(size=(n, m))
                v = u.argmax(1)
                S[:, j] = B[v, 0]
            else:
                v = np.searchsorted(np.linspace(-1, 1, m + 1)[1:-1] * 1.2, z + r.logistic(size=n))
                S[:, j] = v - (m - 1) / 2.0
            v[:m] = r.permutation(m)
            codes = np.array(c["codes"][:m], dtype=float)
            X[:, j] = (np.sort(codes) if kind == "ord" else codes)[v]
    return X


CODES = [[0, 1, 2, 3], [1, 2, 3, 4], [5, 2, 9, 7], [-1, 0, 1, 3], [10, 2, 33, 4], [0.5, -2.5, 7.25, 1]]


@st.composite
def wide_case(draw, big=False):
    """Eleven or more classes, eleven or more columns, or (cheap checks only) both: columns whose order is not that of their decimal names."""
    many = draw(st.sampled_from(["classes", "columns", "both"] if big else ["classes", "columns"]))
    d = draw(st.integers(11, 13)) if many != "classes" else draw(st.integers(2, 3))
    ks = draw(st.lists(st.sampled_from(["cont", "cont", "cont", "bin", "poiss", "ord"]), min_size=d, max_size=d))
    for _ in range(2 if big else 1):
        if many != "columns" or draw(st.booleans()):
            ks[draw(st.integers(0, d - 1))] = "cat"
    m = draw(st.integers(11, 13)) if many != "columns" else None
    codes = draw(st.sampled_from([list(range(13)), list(range(1, 14)), [1.5 * k - 4 for k in range(13)]]))
    return {"seed": draw(st.integers(0, 10 ** 6)), "kinds": ks, "n": draw(st.sampled_from([40, 60])), "dens": draw(st.sampled_from([0.0, 0.2])),
            "codes": list(draw(st.permutations(codes))), "classes": m, "scale": 1, "shift": 0}


@st.composite
def data_case(draw, dmax=4, kinds=None, nmin=20, allcont=True):
    d = draw(st.integers(2, dmax))
    ks = draw(st.lists(st.sampled_from(kinds or KINDS), min_size=d, max_size=d))
    if allcont and draw(st.integers(0, 3)) == 0:
        ks = ["cont"] * d
    return {"seed": draw(st.integers(0, 10 ** 6)), "kinds": ks, "n": draw(st.sampled_from([nmin, nmin + 20, 80])), "dens": draw(st.sampled_from([0.0, 0.5, 1.0])),
            "codes": draw(st.sampled_from(CODES)), "scale": draw(st.sampled_from([1, 1, 1, 0.5, 2])), "shift": draw(st.sampled_from([0, 0, 1]))}


@st.composite
def tabu(draw, d):
    pair = st.tuples(st.integers(0, d - 1), st.integers(0, d - 1))
    return {"te": draw(st.none() | st.lists(pair, max_size=5)), "tp": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=2)),
            "tc": draw(st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=2))}


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.msgs = []

    def emit(self, record):
        self.msgs.append(record.getMessage())

    def __enter__(self):
        self.root = logging.getLogger()
        self.saved = self.root.handlers[:]
        self.root.handlers[:] = [self]
        return self

    def __exit__(self, *a):
        self.root.handlers[:] = self.saved


def schema_of(c, names=None):
    """None, or the schema in the order the case asks for."""
    if c.get("schema", True) is None:
        return None
    order = c.get("sorder") or range(len(c["kinds"]))
    return {(i if names is None else names[i]): c["kinds"][i] for i in order}


def proc_order(c):
    return [(i, c["kinds"][i]) for i in (c.get("sorder") or range(len(c["kinds"])))]


def learn(c, X, names=None, data=None):
    """Run the learner; returns (structure, number of non-convergence messages)."""
    import torch
    m = mods.get("structure.pytorch.notears")
    tr = (lambda k: k) if names is None else (lambda k: names[k])
    kw = {"dist_type_schema": schema_of(c, names)}
    for k, a in (("l1", "lasso_beta"), ("l2", "ridge_beta"), ("bias", "use_bias"), ("thr", "w_threshold"), ("max_iter", "max_iter"), ("clamp", "nonlinear_clamp")):
        if c.get(k) is not None:
            kw[a] = c[k]
    if c.get("hidden") is not None:
        kw["hidden_layer_units"] = list(c["hidden"])
    if c.get("te") is not None:
        kw["tabu_edges"] = [(tr(u), tr(v)) for u, v in c["te"]]
    if c.get("tp") is not None:
        kw["tabu_parent_nodes"] = [tr(u) for u in c["tp"]]
    if c.get("tc") is not None:
        kw["tabu_child_nodes"] = [tr(u) for u in c["tc"]]
    before = copy.deepcopy(kw)
    torch.manual_seed(c["seed"])
    arg = X if data is None else data
    with warnings.catch_warnings(record=True) as ws, Log() as log:
        warnings.simplefilter("always")
        g = (m.from_numpy if names is None else m.from_pandas)(arg, **kw)
    if repr(kw) != repr(before):
        raise AssertionError("the arguments were changed from %r to %r" % (before, kw))
    return g, sum("converge" in s.lower() for s in log.msgs + [str(w.message) for w in ws])


def node_names(names, groups):
    """Names (or numbers) of the expanded columns, by number."""
    d = sum(len(g.cols) for g in groups)
    out = list(range(d))
    if names is not None:
        for g in groups:
            for k, col in enumerate(g.cols):
                out[col] = names[g.idx] if k == 0 else "%s%d" % (names[g.idx], k)
    return out


def signed(g, nodes):
    """Signed weights from the mean effects, magnitudes from the weights."""
    ix = {v: i for i, v in enumerate(nodes)}
    W, A = np.zeros((len(nodes),) * 2), np.zeros((len(nodes),) * 2)
    for u, v, e in g.edges(data=True):
        W[ix[u], ix[v]] = e["mean_effect"]
        A[ix[u], ix[v]] = e["weight"]
    return W, A


def biases(g, nodes):
    return np.array([0.0 if g.nodes[v]["bias"] is None else float(g.nodes[v]["bias"]) for v in nodes])


def desc(c):
    return "learning from %s columns, l1=%r l2=%r bias=%r hidden=%r" % ("/".join(c["kinds"]), c.get("l1"), c.get("l2"), c.get("bias"), c.get("hidden"))


def check_common(ctx, c, g, gr, names, d_orig, what):
    """Constraints every learned structure meets.  Returns (node names, owner of each column)."""
    nodes = node_names(names, gr)
    own = {q: x.idx for x in gr for q in x.cols}
    kind = {q: x.kind for x in gr for q in x.cols}
    ctx.require(len(g.nodes) == len(nodes) and set(g.nodes) == set(nodes), lambda: "%s has nodes %r instead of %r" % (what, list(g.nodes), nodes))
    ix = {v: i for i, v in enumerate(nodes)}
    linear = not c.get("hidden")
    for u, v, e in g.edges(data=True):
        i, j = ix[u], ix[v]
        w, me = e.get("weight"), e.get("mean_effect")
        ctx.require(w is not None and me is not None and np.isfinite(w) and np.isfinite(me), lambda: "%s: edge %r->%r has weight %r and mean effect %r" % (what, u, v, w, me))
        ctx.require(e.get("origin") == "learned", lambda: "%s: edge %r->%r has origin %r" % (what, u, v, e.get("origin")))
        ctx.require(w >= 0, lambda: "%s: edge %r->%r has the negative weight %r" % (what, u, v, w))
        if linear:
            ctx.require(w == abs(me), lambda: "%s: edge %r->%r has weight %r but mean effect %r" % (what, u, v, w, me))
        else:
            ctx.require(abs(me) <= w * 1.001 + 1e-6, lambda: "%s: edge %r->%r has mean effect %r, larger than its weight %r" % (what, u, v, me, w))
        o, t = own[i], own[j]
        ctx.require(o != t, lambda: "%s has the edge %r->%r within one variable (weight %r)" % (what, u, v, w))
        ctx.require((o, t) not in (c.get("te") or []), lambda: "%s has the tabu edge %r->%r (weight %r)" % (what, u, v, w))
        ctx.require(o not in (c.get("tp") or []), lambda: "%s has the edge %r->%r out of a tabu parent (weight %r)" % (what, u, v, w))
        ctx.require(t not in (c.get("tc") or []), lambda: "%s has the edge %r->%r into a tabu child (weight %r)" % (what, u, v, w))
        if c.get("thr"):
            ctx.require(w >= c["thr"], lambda: "%s: edge %r->%r has weight %r, below the threshold %r" % (what, u, v, w, c["thr"]))
    for i, v in enumerate(nodes):
        b = g.nodes[v].get("bias", "none given")
        if c.get("bias"):
            ctx.require(not isinstance(b, str) and b is not None and np.isfinite(b), lambda: "%s: node %r has the bias %r" % (what, v, b))
        else:
            ctx.require(b is None, lambda: "%s without bias: node %r has the bias %r" % (what, v, b))
        dt = g.nodes[v].get("dist_type")
        ctx.require(dt is not None and dt.idx == own[i] and type(dt) is alias(kind[i]), lambda: "%s: node %r of column %d (%s) has the distribution type %r" % (what, v, own[i], kind[i], dt))
    col = g.graph["graph_collapsed"]
    orig = list(range(d_orig)) if names is None else list(names)
    ctx.require(len(col.nodes) == d_orig and set(col.nodes) == set(orig), lambda: "%s: the collapsed structure has nodes %r, the data has columns %r" % (what, list(col.nodes), orig))
    for u, v, w in col.edges.data("weight"):
        i, j = orig.index(u), orig.index(v)
        ctx.require(i != j and (i, j) not in (c.get("te") or []) and i not in (c.get("tp") or []) and j not in (c.get("tc") or []) and np.isfinite(w),
                    lambda: "%s: the collapsed structure has the forbidden edge %r->%r (weight %r)" % (what, u, v, w))
    return nodes, own


def alias(kind):
    return mods.get("structure.pytorch.dist_type").dist_type_aliases[kind]


# ---------------------------------------------------------------- T01
HIDDEN = [None, None, None, None, None, [2], [1], [3, 2]]


@st.composite
def any_case(draw):
    """Data for linear and nonlinear models; the latter are smaller, since their fits take much longer."""
    hidden = draw(st.sampled_from(HIDDEN))
    c = draw(data_case(dmax=3 if hidden else 4))
    c["hidden"] = hidden
    if hidden:
        c["n"] = 20
        first = c["kinds"].index("cat") if "cat" in c["kinds"] else -1
        c["kinds"] = ["cont" if k == "cat" and i != first else k for i, k in enumerate(c["kinds"])]
    return c


def tame(c):
    if c["hidden"]:
        c["max_iter"], c["l2"] = 1, c["l2"] or 0.1
    return c


@st.composite
def t01_case(draw, wide=False):
    c = dict(draw(wide_case()), hidden=None) if wide else draw(any_case())
    d = len(c["kinds"])
    c.update(draw(tabu(d)))
    if not wide and not c["hidden"] and draw(st.integers(0, 2)) == 0:
        # edges between variables that both expand
        c["kinds"] = ["cat" if i < 2 else k for i, k in enumerate(c["kinds"][::-1])]
        c["te"] = (c["te"] or []) + [draw(st.sampled_from([(0, 1), (1, 0)]))]
    c.update(l1=draw(st.sampled_from([None, 0, 0.05, 0.3])), l2=draw(st.sampled_from([None, 0.05, 0.5])), bias=draw(st.sampled_from([None, True, False])),
             thr=draw(st.sampled_from([None, 0, 0.05, 0.2, 0.6])), max_iter=draw(st.sampled_from([1] if wide else [1, 1, 2, 3])),
             sorder=draw(st.none() | st.permutations(range(d))), names=draw(st.permutations(T_LABELS))[:d] if draw(st.booleans()) else None)
    tame(c)
    if all(k == "cont" for k in c["kinds"]) and draw(st.booleans()):
        c["schema"] = None
        c["sorder"] = None
    return c


T_LABELS = ["b", "a", "zz", "Z", "c_1", "x y", "é", "weight", "v", "bias", "w_", "q", "origin", "k"]


def frame(X, names):
    import pandas as pd
    return pd.DataFrame(X, columns=list(names))


def check_t01(c, ctx):
    X = make_data(c)
    d = len(c["kinds"])
    names = list(c["names"]) if c["names"] else None
    data = None if names is None else frame(X, names)
    _, gr = glm.expand(X, proc_order(c))
    g, _ = learn(c, X, names, data)
    full, _ = learn(dict(c, thr=None), X, names, data)
    nodes, own = check_common(ctx, c, g, gr, names, d, "structure learned by " + desc(c))
    check_common(ctx, dict(c, thr=None), full, gr, names, d, "structure learned without threshold by " + desc(c))
    t = c["thr"] or 0
    want = {(u, v): w for u, v, w in full.edges.data("weight") if w >= t}
    got = {(u, v): w for u, v, w in g.edges.data("weight")}
    ctx.require(set(k for k in want if want[k] > t * 1.0001 or not t) <= set(got) and all(k in want or t and full.edges[k]["weight"] > t * 0.9999 for k in got) and all(abs(got[k] - full.edges[k]["weight"]) <= 1e-6 * max(1, got[k]) for k in got),
                lambda: "threshold %r gives the edges %r; without it the edges that strong are %r" % (c["thr"], got, want))
    _, A = signed(full, nodes)
    C = glm.collapse(A, gr)
    orig = list(range(d)) if names is None else names
    for which, s in (("", full), (" (threshold given)", g)):
        B = np.zeros((d, d))
        for u, v, w in s.graph["graph_collapsed"].edges.data("weight"):
            B[orig.index(u), orig.index(v)] = w
        if s is full:
            ctx.require(np.allclose(B, C, rtol=1e-4, atol=1e-6), lambda: "collapsed structure%s has weights %r, the sums over expanded columns are %r" % (which, B.tolist(), C.tolist()))
    k = sum(bool(c[x]) for x in ("te", "tp", "tc"))
    ctx.label("constraint kinds: %d" % k)
    ctx.label("expanded columns", any(len(x.cols) > 1 for x in gr))
    ctx.label("nonlinear", bool(c["hidden"]))
    ctx.label("pandas", names is not None)
    ctx.label("threshold removed some", len(got) < full.number_of_edges())
    ctx.nontrivial(full.number_of_edges() > 0 and (k > 0 or bool(t)))


# ---------------------------------------------------------------- T02
@st.composite
def t02_case(draw):
    c = draw(data_case(dmax=4))
    d = len(c["kinds"])
    if draw(st.integers(0, 3)) == 0:
        c.update(draw(tabu(d)))
    c.update(l1=draw(st.sampled_from([None, 0.02, 0.1])), l2=draw(st.sampled_from([None, 0.02, 0.1])), bias=draw(st.booleans()), max_iter=draw(st.sampled_from([None, None, 1, 2, 3, 5])),
             sorder=draw(st.none() | st.permutations(range(d))))
    return c


@st.composite
def t02_loop_case(draw):
    """Data of a feedback loop through all variables; often no edges but the loop's are permitted."""
    d = draw(st.integers(2, 5))
    return {"seed": draw(st.integers(0, 10 ** 6)), "kinds": ["cont"] * d, "n": draw(st.sampled_from([50, 200])), "loop": draw(st.permutations(range(d))), "free": draw(st.integers(0, 2)) == 0,
            "gain": draw(st.lists(st.sampled_from([-0.9, -0.6, 0.6, 0.9]), min_size=d, max_size=d)), "l1": draw(st.sampled_from([0, 0.02, 0.1])), "l2": draw(st.sampled_from([0, 0.02, 0.1])), "bias": draw(st.booleans())}


def loop_data(c):
    d = len(c["kinds"])
    M = np.zeros((d, d))
    for k in range(d):
        M[c["loop"][k], c["loop"][(k + 1) % d]] = c["gain"][k]
    R = np.random.RandomState(c["seed"]).randn(c["n"], d) @ np.linalg.pinv(np.eye(d) - M)
    return R / np.maximum(R.std(0), 1e-9), M


def check_t02_loop(c, ctx):
    X, M = loop_data(c)
    if abs(np.linalg.det(np.eye(len(M)) - M)) < 0.05:
        ctx.discard()
    if not c["free"]:
        c = dict(c, te=[(i, j) for i in range(len(M)) for j in range(len(M)) if M[i, j] == 0])
    ctx.label("only the loop's edges permitted", not c["free"])
    check_t02(c, ctx, X)


def check_t02(c, ctx, X=None):
    import networkx as nx
    from math import comb
    X = make_data(c) if X is None else X
    _, gr = glm.expand(X, proc_order(c))
    g, warned = learn(c, X)
    nodes = node_names(None, gr)
    W, A = signed(g, nodes)
    h = glm.h_poly(A, gr)
    d = len(c["kinds"])
    ctx.label("warned", warned)
    ctx.label("few iterations", c.get("max_iter") is not None)
    ctx.label("expanded columns", len(nodes) > d)
    big = glm.collapse(A * A, gr)
    # single precision: h is a sum of about d numbers near one.  Fits that end because the penalty is at its largest
    # may stop well above that without a report: listed in known_findings.txt, up to where edges are concerned
    exact = 1e-8 + 1e-6 * d * (1 + big.max())
    tol = (5e-4 if set(c["kinds"]) == {"cont"} else 5e-3) * (1 + big.max())
    if not warned:
        ctx.label("known finding: constraint missed without report", h > exact)
        ctx.require(h <= tol, lambda: "%s: no non-convergence was reported, but h=%r; squared weights between variables: %r" % (desc(c), h, np.round(big, 5).tolist()))
        bound = max((tol * d ** k / (k * comb(d, k))) ** (1.0 / k) for k in range(1, d + 1))
        G = nx.DiGraph([(i, j) for i in range(d) for j in range(d) if big[i, j] > bound * 1.01])
        ctx.require(nx.is_directed_acyclic_graph(G), lambda: "%s: cycle left after dropping squared weights up to %r: %r" % (desc(c), bound, big.tolist()))
    ctx.nontrivial(bool((A > 0).any()))


# ---------------------------------------------------------------- T03
@st.composite
def t03_case(draw):
    cont = draw(st.integers(0, 3)) == 0
    c = draw(data_case(nmin=30, kinds=["cont"] if cont else KINDS, allcont=False))
    d = len(c["kinds"])
    c.update(l1=draw(st.sampled_from([0, 0, 0, 0.02, 0.05, 0.1])), l2=draw(st.sampled_from([0, 0, 0.02, 0.1, 1])), bias=draw(st.booleans()), dens=draw(st.sampled_from([0.5, 1.0])),
             order=draw(st.permutations(range(d))), drop=draw(st.lists(st.tuples(st.integers(0, d - 1), st.integers(0, d - 1)), max_size=2)),
             sorder=draw(st.none() | st.permutations(range(d))))
    one = st.none() | st.none() | st.lists(st.integers(0, d - 1), max_size=1)
    c.update(tp=draw(one), tc=draw(one))
    if draw(st.integers(0, 4)) == 0:
        # fewer rows, which the penalty keeps well-posed
        c.update(n=draw(st.sampled_from([6, 9, 12])), l1=0, l2=draw(st.sampled_from([0.1, 0.3, 1])))
    return c


def check_t03(c, ctx):
    X = make_data(c)
    d = len(c["kinds"])
    pos = {v: k for k, v in enumerate(c["order"])}
    c = dict(c, te=[(i, j) for i in range(d) for j in range(d) if i != j and pos[i] > pos[j]] + [e for e in c["drop"] if e[0] != e[1]])

    def run(X):
        Xe, gr = glm.expand(X, proc_order(c))
        nodes = node_names(None, gr)
        own = {q: x.idx for x in gr for q in x.cols}
        allowed = np.array([[own[i] != own[j] and (own[i], own[j]) not in c["te"] and own[i] not in (c["tp"] or []) and own[j] not in (c["tc"] or []) for j in nodes] for i in nodes])
        g, warned = learn(c, X)
        ctx.require(not warned, "%s with an imposed ordering reports that it failed to converge" % desc(c))
        W, _ = signed(g, nodes)
        b = biases(g, nodes)
        ctx.require(not (W[~allowed] != 0).any(), lambda: "%s: forbidden edge in %r" % (desc(c), W.tolist()))
        f = glm.objective(gr, Xe, W, b, c["l1"], c["l2"])
        f0 = glm.objective(gr, Xe, W * 0, b * 0, c["l1"], c["l2"])
        Wo, bo = glm.optimum(gr, Xe, allowed, c["l1"], c["l2"], c["bias"])
        fo = glm.objective(gr, Xe, Wo, bo, c["l1"], c["l2"])
        cont = set(c["kinds"]) == {"cont"}
        # the absolute value has a kink at zero, where L-BFGS-B may stop early; slack as measured (see DESIGN.md)
        rel = 4e-4 if not c["l1"] else (4e-4 if c["l1"] <= 0.05 else 4e-3) if cont else 5e-3
        ok = f <= fo + rel * abs(f0) + 1e-6
        if cont:
            ev = np.linalg.eigvalsh((Xe - Xe.mean(0) * bool(c["bias"])).T @ (Xe - Xe.mean(0) * bool(c["bias"])) / len(X))
            if ev[0] > 0.05 * ev[-1]:
                ok = ok and np.abs(W - Wo).max() <= (0.01 if not c["l1"] else 0.04 if c["l1"] <= 0.05 else 0.1) * (1 + np.abs(Wo).max())
                ctx.label("weights compared")
        return ok, lambda: "%s, ordering imposed: penalised loss %.9g, minimum %.9g, at zero weights %.9g; weights %r biases %r; optimum %r %r" % (
            desc(c), f, fo, f0, np.round(W, 4).tolist(), np.round(b, 4).tolist(), np.round(Wo, 4).tolist(), np.round(bo, 4).tolist()), W, gr
    ok, msg, W, gr = run(X)
    if not ok:
        # the optimiser occasionally stops at a kink; on neighbouring data it does not
        n = len(X)
        again = []
        for k in (0, n // 3, n // 2, n - 2):
            Y = X.copy()
            Y[k] = X[k + 1]
            if all(len(np.unique(Y[:, j])) == len(np.unique(X[:, j])) for j in range(d) if c["kinds"][j] in ("cat", "ord", "bin")):
                again.append(run(Y)[0])
        ctx.label("optimiser stopped early once", sum(again) * 2 > len(again))
        ctx.require(sum(again) * 2 > len(again), msg)
    for x in gr:
        ctx.label("column " + x.kind)
    ctx.label("penalty l1", bool(c["l1"]))
    ctx.label("penalty l2", bool(c["l2"]))
    ctx.label("tabu parent or child", bool(c["tp"] or c["tc"]))
    ctx.nontrivial(bool((W != 0).any()))


# ---------------------------------------------------------------- T04
@st.composite
def t04_case(draw, wide=False):
    c = dict(draw(wide_case()), hidden=None) if wide else draw(any_case())
    d = len(c["kinds"])
    c.update(draw(tabu(d)))
    c.update(l1=draw(st.sampled_from([None, 0.05])), l2=draw(st.sampled_from([None, 0.05])), bias=draw(st.booleans()), thr=draw(st.sampled_from([None, 0.1])),
             max_iter=draw(st.sampled_from([1] if wide else [1, 1, 2])), sorder=draw(st.none() | st.permutations(range(d))),
             names=draw(st.permutations(T_LABELS))[:d], dtype=draw(st.sampled_from(["float64", "float64", "float32", "int64"])),
             index=draw(st.sampled_from([None, "shift", "repeat"])))
    return tame(c)


def check_t04(c, ctx):
    X = make_data(c)
    if c["dtype"] == "int64":
        X = np.round(X * np.where(np.array(c["kinds"]) == "cont", 5, 1))
    X = X.astype(c["dtype"])
    d = len(c["kinds"])
    if c["codes"][0] == 0.5 and c["dtype"] == "int64":
        for j in range(d):
            if c["kinds"][j] in ("cat", "ord") and len(np.unique(X[:, j])) < 2:
                ctx.discard()
    names = list(c["names"])
    df = frame(X, names)
    if c["index"]:
        df.index = list(range(7, 7 + len(X))) if c["index"] == "shift" else [k // 2 for k in range(len(X))]
    X0 = X.copy()
    _, gr = glm.expand(X, proc_order(c))
    g, w1 = learn(c, X)
    ctx.require(np.array_equal(X, X0) and X.dtype == X0.dtype, "from_numpy changed the data")
    p, w2 = learn(c, X, names, df)
    ctx.require(list(df.columns) == names and np.array_equal(df.values, X0) and df.values.dtype == X0.dtype, "from_pandas changed the data")
    nn, pn = node_names(None, gr), node_names(names, gr)
    ctx.require(set(g.nodes) == set(nn) and set(p.nodes) == set(pn), lambda: "nodes %r (numpy), %r (pandas) instead of %r, %r" % (list(g.nodes), list(p.nodes), nn, pn))

    def same(a, b):
        return a is None and b is None or a is not None and b is not None and abs(a - b) <= 1e-5 * max(1, abs(a))
    ea = {(u, v): (e["weight"], e["mean_effect"], e["origin"]) for u, v, e in g.edges(data=True)}
    eb = {(u, v): (e["weight"], e["mean_effect"], e["origin"]) for u, v, e in p.edges(data=True)}
    for what, a, b, na, nb in (("structure", ea, eb, nn, pn),
                               ("collapsed structure", {(u, v): (w,) for u, v, w in g.graph["graph_collapsed"].edges.data("weight")}, {(u, v): (w,) for u, v, w in p.graph["graph_collapsed"].edges.data("weight")}, range(d), names)):
        tr = {x: y for x, y in zip(na, nb)}
        a = {(tr[u], tr[v]): e for (u, v), e in a.items()}
        ctx.require(set(a) == set(b) and all(same(x, y) if not isinstance(x, str) else x == y for k in a for x, y in zip(a[k], b[k])), lambda: "%s: %s from the frame has the edges %r; from the array, renamed, %r" % (desc(c), what, b, a))
    for x, y in zip(nn, pn):
        ctx.require(same(g.nodes[x]["bias"], p.nodes[y]["bias"]), lambda: "%s: bias of %r is %r from the frame, %r from the array" % (desc(c), y, p.nodes[y]["bias"], g.nodes[x]["bias"]))
        ctx.require(type(g.nodes[x]["dist_type"]) is type(p.nodes[y]["dist_type"]) and g.nodes[x]["dist_type"].idx == p.nodes[y]["dist_type"].idx, lambda: "%s: distribution type of %r differs" % (desc(c), y))
    ctx.require(w1 == w2, lambda: "%d non-convergence messages from the array, %d from the frame" % (w1, w2))
    ctx.label("expanded columns", len(nn) > d)
    ctx.label("dtype " + c["dtype"])
    ctx.nontrivial(bool(ea) and list(names) != sorted(names))


@st.composite
def t04_bad_case(draw):
    c = draw(data_case(dmax=3))
    c["bad"] = draw(st.sampled_from(["no rows", "nan", "inf", "text column", "bool column", "missing key", "extra key", "negative count", "one-dimensional", "name clash"]))
    c["pandas"] = draw(st.booleans()) or c["bad"] in ("text column", "bool column", "name clash")
    c["pick"] = draw(st.integers(0, 10 ** 6))
    c["max_iter"] = 1
    c["l1"] = draw(st.sampled_from([None, 0.1]))
    return c


def check_t04_bad(c, ctx):
    import pandas as pd
    m = mods.get("structure.pytorch.notears")
    X = make_data(c)
    d = len(c["kinds"])
    names = ["c%s" % "xyzw"[k] for k in range(d)]
    bad, pick = c["bad"], c["pick"]
    kinds = list(c["kinds"])
    if bad == "no rows":
        X = X[:0]
    elif bad in ("nan", "inf"):
        k = [j for j in range(d) if kinds[j] in ("cont", "bin", "poiss", "ord", "cat")]
        X[pick % len(X), k[pick % len(k)]] = np.nan if bad == "nan" else np.inf
    elif bad == "negative count":
        kinds[pick % d] = "poiss"
        X[:, pick % d] = np.arange(len(X)) % 3
        X[pick % len(X), pick % d] = -1
    elif bad == "name clash":
        if d < 2:
            ctx.discard()
        a = pick % d
        kinds[a] = "cat"
        X[:, a] = np.arange(len(X)) % 3
        names[(a + 1) % d] = names[a] + str(1 + pick // 7 % 2)
    keys = names if c["pandas"] else list(range(d))
    schema = dict(zip(keys, kinds))
    if bad == "missing key":
        del schema[keys[pick % d]]
    elif bad == "extra key":
        schema["new" if c["pandas"] else d + pick % 3] = "cont"
    kw = {"max_iter": 1}
    if c["l1"]:
        kw["lasso_beta"] = c["l1"]
    what = "learning from %s columns (%s)" % ("/".join(kinds), bad)
    errors = (ValueError,)
    if c["pandas"]:
        data = pd.DataFrame(X, columns=names)
        if bad == "text column":
            data[names[pick % d]] = ["u"] * len(X)
        elif bad == "bool column":
            data[names[pick % d]] = [bool(k % 2) for k in range(len(X))]
        elif bad == "one-dimensional":
            ctx.discard()
        if bad == "extra key":
            errors = (ValueError, KeyError)
        fn = lambda: m.from_pandas(data, dist_type_schema=schema, **kw)  # noqa
    else:
        data = X[:, 0] if bad == "one-dimensional" else X
        fn = lambda: m.from_numpy(data, dist_type_schema=schema, **kw)  # noqa
    with warnings.catch_warnings(), Log():
        warnings.simplefilter("ignore")
        expect_raises(ctx, errors, fn, what)
    ctx.label(bad)
    ctx.nontrivial()


# ---------------------------------------------------------------- T05
@st.composite
def t05_case(draw, wide=False):
    c = draw(wide_case(big=True) if wide else data_case(dmax=4, kinds=["cont", "bin", "poiss", "cat", "cat", "ord"], allcont=False))
    d = len(c["kinds"])
    c.update(draw(tabu(d)))
    c.update(sorder=draw(st.permutations(range(d))), n=draw(st.sampled_from([40] if wide else [8, 20])), scale_z=draw(st.sampled_from([0.3, 1, 3, 10])), n2=draw(st.sampled_from([1, 2, 5])), float32=draw(st.booleans()))
    return c


def check_t05(c, ctx):
    """Preprocessing and inverse links of the distribution types, taken through their public interface."""
    import torch
    X = make_data(c)
    d = len(c["kinds"])
    X0 = X.copy()
    order = proc_order(c)
    Xe, gr = glm.expand(X, order)
    dts = [alias(k)(idx=i) for i, k in order]
    P, te, tp, tc = X, c["te"], c["tp"], c["tc"]
    given = copy.deepcopy((te, tp, tc))
    for dt in dts:
        P = dt.preprocess_X(P)
        te, tp, tc = dt.preprocess_tabu_edges(te), dt.preprocess_tabu_nodes(tp), dt.preprocess_tabu_nodes(tc)
    ctx.require(np.array_equal(X, X0), "preprocessing changed the data it was given")
    ctx.require(repr((c["te"], c["tp"], c["tc"])) == repr(given), lambda: "preprocessing changed the constraint lists to %r" % ((c["te"], c["tp"], c["tc"]),))
    ctx.require(P.shape == Xe.shape and np.array_equal(P, Xe), lambda: "%s columns %r: preprocessed to %r instead of %r" % ("/".join(c["kinds"]), X.tolist(), np.asarray(P).tolist(), Xe.tolist()))
    # the groups of expanded columns and the constraints between all columns
    own = {q: x.idx for x in gr for q in x.cols}
    D = len(own)
    cat = {x.idx for x in gr if x.kind == "cat"}
    want = {(i, j) for i in range(D) for j in range(D) if (own[i], own[j]) in (c["te"] or []) and own[i] != own[j]} | {(i, j) for i in range(D) for j in range(D) if i != j and own[i] == own[j]}
    got = {tuple(e) for e in (te or []) if e[0] != e[1]}
    # pairs within one variable matter only as a ban between its columns
    ctx.require(got == want, lambda: "tabu edges %r become %r instead of %r" % (c["te"], sorted(got), sorted(want)))
    for what, a, b in (("parents", c["tp"], tp), ("children", c["tc"], tc)):
        w = None if a is None else {i for i in range(D) if own[i] in a}
        ctx.require((b is None) == (a is None) and (a is None or set(b) == w), lambda: "tabu %s %r become %r instead of %r" % (what, a, b, w))
    names = {i: "v%s" % "abcdefghijklmn"[i] for i in range(d)}
    ren = dict(names)
    for dt in dts:
        ren = dt.update_idx_col(ren)
    ctx.require(ren == dict(enumerate(node_names([names[i] for i in range(d)], gr))), lambda: "columns are named %r after expansion" % ren)
    # new rows are coded like the rows it was fitted on
    r = np.random.RandomState(c["seed"] + 1)
    rows = r.randint(len(X), size=c["n2"])
    Y, Q = X[rows].copy(), None
    Q = Y
    for dt in dts:
        Q = dt.preprocess_X(Q, fit_transform=False)
    ctx.require(np.array_equal(Q, Xe[rows]), lambda: "new rows %r are coded as %r; as part of the fitted data they were %r" % (Y.tolist(), np.asarray(Q).tolist(), Xe[rows].tolist()))
    # inverse links
    Z = r.randn(c["n2"], D) * c["scale_z"]
    for dt, x in zip(dts, gr):
        got = dt.inverse_link_function(torch.from_numpy(Z.copy()).float() if c["float32"] else torch.from_numpy(Z.copy()))
        got = np.asarray(got.numpy(), dtype=float)
        tol = 2e-5 if c["float32"] else 1e-6
        if x.kind == "ord":
            p = glm.ord_probs(x, Z[:, x.idx])
            ctx.require(got.shape == p.shape and np.allclose(got, p, atol=tol) and np.allclose(got.sum(1), 1, atol=1e-5), lambda: "ordinal link of %r with cut points %r gives %r instead of %r" % (Z[:, x.idx].tolist(), x.cuts.tolist(), got.tolist(), p.tolist()))
            ctx.require(np.array_equal(dt.get_columns(got), got), "get_columns changes ordinal probabilities")
        else:
            p = glm.link(gr, Z, only=x)
            ctx.require(got.shape == p.shape and np.allclose(got, p, atol=tol, rtol=1e-4), lambda: "%s link of column %d: %r becomes %r instead of %r" % (x.kind, x.idx, Z.tolist(), got.tolist(), p.tolist()))
            gc = dt.get_columns(got)
            ctx.require(np.array_equal(gc, got[:, x.cols] if x.kind == "cat" else got[:, x.idx]), lambda: "get_columns of a %s column returns %r of %r" % (x.kind, gc.tolist(), got.tolist()))
        ctx.label("link " + x.kind)
    ctx.label("several categorical", len(cat) > 1)
    ctx.nontrivial(bool(cat) or "ord" in c["kinds"])


# ---------------------------------------------------------------- T06
@st.composite
def t06_case(draw, wide=False):
    c = draw(wide_case(big=True) if wide else data_case(dmax=4, kinds=["cont", "bin", "poiss", "cat", "ord"], allcont=False))
    d = len(c["kinds"])
    c.update(sorder=draw(st.permutations(range(d))), n=draw(st.sampled_from([40] if wide else [4, 8, 20])), scale_z=draw(st.sampled_from([0.3, 1, 3])), zseed=draw(st.integers(0, 10 ** 6)))
    return c


def check_t06(c, ctx):
    """Loss of every distribution type and its gradient against closed forms."""
    import torch
    X = make_data(c)
    Xe, gr = glm.expand(X, proc_order(c))
    P = X
    dts = [alias(k)(idx=i) for i, k in proc_order(c)]
    for dt in dts:
        P = dt.preprocess_X(P)
    r = np.random.RandomState(c["zseed"])
    Z = r.randn(*Xe.shape) * c["scale_z"]
    tx = torch.from_numpy(np.array(P, dtype=float)).float()
    for dt, x in zip(dts, gr):
        tz = torch.from_numpy(Z.astype(np.float32)).requires_grad_()
        f, gz = glm.loss(x, Xe, Z, grad=True)
        L = dt.loss(tx, tz)
        ctx.require(tuple(L.shape) == () and abs(L.item() - f) <= 2e-4 * max(1.0, abs(f)), lambda: "%s loss of column %d is %r instead of %r (codes %r, predictors %r)" % (x.kind, x.idx, L.item(), f, Xe[:, x.cols].tolist(), Z[:, x.cols].tolist()))
        L.backward()
        G = np.zeros(Z.shape)
        G[:, x.cols] = gz
        got = np.zeros(Z.shape) if tz.grad is None else tz.grad.numpy()
        if x.kind != "ord" or np.abs(Z[:, x.cols]).max() < 6:
            ctx.require(np.allclose(got, G, atol=2e-4 * max(1, np.abs(G).max())), lambda: "gradient of the %s loss of column %d is %r instead of %r" % (x.kind, x.idx, got.tolist(), G.tolist()))
        ctx.label("loss " + x.kind)
    ctx.nontrivial(len(set(c["kinds"])) > 1)


# ---------------------------------------------------------------- T07
@st.composite
def t07_case(draw):
    linear = draw(st.integers(0, 2)) == 0
    c = draw(data_case(dmax=4, kinds=["cont", "cont", "bin", "poiss", "cat"] if linear else ["cont", "cont", "cont", "bin", "poiss", "cat"]))
    d = len(c["kinds"])
    c.update(l1=draw(st.sampled_from([None, 0.01])), l2=draw(st.sampled_from([0.05, 0.5])), bias=draw(st.booleans()), max_iter=draw(st.sampled_from([1, 2])),
             hidden=None if linear else draw(st.sampled_from([[1], [2], [3], [4], [2, 2], [3, 2]])), sorder=draw(st.none() | st.permutations(range(d))),
             clamp=draw(st.sampled_from([None, None, 0.1])), n=draw(st.sampled_from([20, 40])))
    c.update(draw(tabu(d)))
    return c


def check_t07(c, ctx):
    X = make_data(c)
    d = len(c["kinds"])
    Xe, gr = glm.expand(X, proc_order(c))
    if not c["hidden"]:
        c = dict(c, clamp=None)
    g, _ = learn(c, X)
    model = g.graph["structure_learner"]
    nodes = node_names(None, gr)
    D = len(nodes)
    W, A = signed(g, nodes)
    X0 = X.copy()
    hat = np.asarray(model.reconstruct_data(X), dtype=float)
    ctx.require(np.array_equal(X, X0), "reconstruct_data changed the data it was given")
    ctx.require(hat.shape == Xe.shape and np.isfinite(hat).all(), lambda: "%s: reconstruction of shape %r with entries %r" % (desc(c), hat.shape, hat.tolist()))
    # rows do not influence each other
    for k in (0, len(X) - 1):
        one = np.asarray(model.reconstruct_data(X[k:k + 1]), dtype=float)
        ctx.require(np.allclose(one, hat[k:k + 1], rtol=1e-3, atol=1e-4), lambda: "%s: row %d is reconstructed as %r alone but %r among others" % (desc(c), k, one.tolist(), hat[k].tolist()))
    if not c["hidden"]:
        Z = glm.predictors(Xe, W, biases(g, nodes))
        want = glm.link(gr, Z)
        ctx.require(np.allclose(hat, want, rtol=2e-3, atol=2e-3 * (1 + np.abs(Z).max())), lambda: "%s: reconstruction %r, but weights and biases give %r" % (desc(c), hat[:3].tolist(), want[:3].tolist()))
        ctx.label("linear")
        ctx.nontrivial(bool((W != 0).any()))
        return
    # derivatives of the predictors by finite differences along single expanded columns, which only continuous and
    # count features allow; links are undone
    def predict(M):
        out = np.asarray(model.reconstruct_data(M), dtype=float)
        for x in gr:
            if x.kind == "bin":
                p = out[:, x.idx]
                out[:, x.idx] = np.log(p) - np.log1p(-p)
            elif x.kind == "poiss":
                out[:, x.idx] = np.log(out[:, x.idx])
            elif x.kind == "cat":
                out[:, x.cols] = np.nan
        return out
    moved = 0
    for i in range(d):
        if c["kinds"][i] != "cont" and c["kinds"][i] != "bin":
            continue
        h = 0.02 * X[:, i].std() + 1e-3
        U, V = X.copy(), X.copy()
        U[:, i] += h
        V[:, i] -= h
        D1 = (predict(U) - predict(V)) / (2 * h)
        U[:, i] += h
        V[:, i] -= h
        D2 = (predict(U) - predict(V)) / (4 * h)
        err = np.abs(D1 - D2).mean(0)          # how far finite differences are from converged
        for x in gr:
            if x.kind == "cat" or x.idx == i:
                if x.idx == i and x.kind != "cat":
                    ctx.require(np.abs(D1[:, i]).max() <= 1e-4 / h * (1 + np.abs(hat).max()), lambda: "%s: the reconstruction of column %d depends on itself" % (desc(c), i))
                continue
            j = x.idx
            scale = 1 + np.abs(hat[:, j]).max()
            if x.kind in ("bin", "poiss") and not np.isfinite(D1[:, j]).all():
                continue
            noise = 2e-5 * scale / h
            if A[i, j] == 0:
                ctx.require(np.abs(D1[:, j]).max() <= 10 * noise + 1e-3, lambda: "%s: there is no edge %d->%d, but the reconstruction of %d changes with %d at rate %r" % (desc(c), i, j, j, i, np.abs(D1[:, j]).max()))
                ctx.label("no edge, no influence")
                continue
            tol = 2 * err[j] + noise + 0.01 * A[i, j] + 1e-3
            if tol > 0.3 * A[i, j] + 0.05:
                ctx.label("derivative too rough to compare")
                continue
            ctx.require(abs(np.abs(D1[:, j]).mean() - A[i, j]) <= tol, lambda: "%s: edge %d->%d has weight %r; the mean absolute derivative is %r (+- %.2g)" % (desc(c), i, j, A[i, j], np.abs(D1[:, j]).mean(), tol))
            ctx.require(abs(D1[:, j].mean() - W[i, j]) <= tol, lambda: "%s: edge %d->%d has mean effect %r; the mean derivative is %r (+- %.2g)" % (desc(c), i, j, W[i, j], D1[:, j].mean(), tol))
            moved += 1
    ctx.label("nonlinear")
    ctx.count("edges compared with derivatives", moved)
    ctx.nontrivial(moved > 0)


PROPS = {
    "T01": lambda: Prop("T01", [Leg("constraints", t01_case, check_t01, 400, cpu_limit=120), Leg("many columns or classes", lambda: t01_case(wide=True), check_t01, 48, cpu_limit=120)], ""),
    "T02": lambda: Prop("T02", [Leg("acyclic", t02_case, check_t02, 400, cpu_limit=120), Leg("loops", t02_loop_case, check_t02_loop, 200, cpu_limit=120)], ""),
    "T03": lambda: Prop("T03", [Leg("ordering", t03_case, check_t03, 900, cpu_limit=120), Leg("many rows", lambda: many_rows(t03_case()), check_t03, 40, cpu_limit=120)], ""),
    "T04": lambda: Prop("T04", [Leg("relabel", t04_case, check_t04, 400, cpu_limit=120), Leg("many columns or classes", lambda: t04_case(wide=True), check_t04, 48, cpu_limit=120), Leg("unusable", t04_bad_case, check_t04_bad, 300, cpu_limit=120), Leg("many rows", lambda: many_rows(t04_case()), check_t04, 24, cpu_limit=120)], ""),
    "T05": lambda: Prop("T05", [Leg("preprocess", t05_case, check_t05, 2000), Leg("many columns or classes", lambda: t05_case(wide=True), check_t05, 300), Leg("many rows", lambda: many_rows(t05_case()), check_t05, 100)], ""),
    "T06": lambda: Prop("T06", [Leg("losses", t06_case, check_t06, 2000), Leg("many columns or classes", lambda: t06_case(wide=True), check_t06, 300), Leg("many rows", lambda: many_rows(t06_case()), check_t06, 100)], ""),
    "T07": lambda: Prop("T07", [Leg("reconstruct", t07_case, check_t07, 400, cpu_limit=120), Leg("many rows", lambda: many_rows(t07_case()), check_t07, 24, cpu_limit=120)], ""),
}
