"""K01-K04 (Bayesian networks), I01-I02 (inference engine), E01-E02 (evaluation)."""
import copy
import itertools
import math
import sys
import warnings

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from .. import mods
from ..core import Leg, Prop, expect_raises

WORDS = ["a", "b", "c", "A", "x_1", "a_1", "a_2", "10", "2", "a_lag0", "B", "ab", "_", "node", "x", "traffic", "t", "state"]
ODD = ["x y", "a.b", "é", "a-b", "a|b", "(a)", "a+"]
POOLS = {"int": [0, 1, 2, 3, 9, 10, 11, -1, 100], "int01": [0, 1, 2, 3], "str": ["a", "b", "ab", "", "10", "9", "1", "x_1", "True", "a_1", "_", "é", "t", "traffic"],
         "bool": [False, True], "float": [0.5, 1.0, 2.0, -1.5, 10.0]}

WIDE = [list(range(13)), [str(k) for k in range(13)], ["s%d" % k for k in range(13)], list(range(5, 18))]


def bnmod():
    mods.get("structure.structuremodel")
    return mods.get("network.network")


@st.composite
def net_case(draw, nmax=8, odd=False, names=None, smax=4, kinds=("int", "int01", "str", "bool", "float"), smin=2):
    n = min(nmax, draw(st.sampled_from([4, 2, 3, 3, 4, 5, 6, 8])))
    # now and then more than ten states, or more than ten nodes
    large = draw(st.sampled_from([None] * 15 + ["states", "nodes"]))
    if large == "states":
        n = min(n, 3)
    elif large == "nodes" and nmax >= 6:
        n = draw(st.integers(10, 13))
    names = list(draw(st.permutations(names or (WORDS + ODD if odd else WORDS)))[:n])
    order = list(draw(st.permutations(range(n))))
    edges = []
    for b in range(1, n):
        a = draw(st.integers(0, b - 1))
        for k in range(b):
            if k == a or draw(st.integers(0, 9)) < 3:
                # the tree edge keeps the graph connected; the direction follows the order
                edges.append([order[k], order[b]])
    if draw(st.booleans()) and n > 2:
        # reversed order gives nodes with several children and a single sink with many parents
        edges = [[v, u] for u, v in edges]
    edges = list(draw(st.permutations(edges)))
    if max(sum(1 for e in edges if e[1] == v) for v in range(n)) > 4:
        edges = [e for k, e in enumerate(edges) if sum(1 for f in edges[:k] if f[1] == e[1]) < 1]
        und = nx.Graph(edges)
        if und.number_of_nodes() < n or not nx.is_connected(und):
            edges = [[order[b - 1], order[b]] for b in range(1, n)]
    states = []
    for _ in range(n):
        pool = POOLS[draw(st.sampled_from(kinds))]
        top = smax
        if large == "states" and draw(st.booleans()):
            pool, top = draw(st.sampled_from(WIDE)), 13
        elif large == "nodes" and nmax >= 6:
            top = 2
        k = draw(st.integers(min(smin, len(pool)), min(top, len(pool))))
        if top == 13:
            k = draw(st.integers(10, 13))
        states.append(list(draw(st.permutations(pool))[:k]))
    if draw(st.sampled_from([False, False, False, True])):
        # a node named like a result column of a node it is linked with
        u, v = edges[draw(st.integers(0, len(edges) - 1))]
        new = "%s_%s" % (names[v], draw(st.sampled_from([str(s) for s in states[v]] + ["prediction"])))
        if new not in names and (odd or new.replace("_", "").isalnum() and new.isascii()):
            names[u] = new
    return {"names": names, "edges": edges, "states": states, "seed": draw(st.integers(0, 10 ** 6)), "rows": draw(st.sampled_from([40, 1, 3, 12, 40, 120])),
            "alpha": draw(st.sampled_from([0.2, 1.0])), "cover": draw(st.booleans()), "cols": list(draw(st.permutations(range(n)))),
            "index": draw(st.sampled_from(["range", "range", "shift", "str", "rev"])), "method": draw(st.sampled_from(["mle", "mle", "k2", "bdeu"])),
            "ess": draw(st.sampled_from([1, 5, 10, 0.5])), "prior": draw(st.sampled_from([None, None, "cpds", "states"]))}


@st.composite
def many(draw, base):
    """The same with more rows to learn from and to predict."""
    c = dict(draw(base))
    c["rows"] = draw(st.sampled_from([1100, 2600]))
    if "fits" in c:
        c["fits"] = [f[:2] + [draw(st.sampled_from([1100, 2600]))] + f[3:] for f in c["fits"]]
    if "test" in c:
        c["test"] = [c["test"][0], draw(st.sampled_from([130, 600, 1100])), c["test"][2]]
    return c


def structure(c):
    sm = mods.get("structure.structuremodel")
    g = sm.StructureModel()
    g.add_edges_from([(c["names"][u], c["names"][v]) for u, v in c["edges"]])
    return g


def parents_of(c):
    return {c["names"][k]: sorted(c["names"][u] for u, v in c["edges"] if v == k) for k in range(len(c["names"]))}


def sample_rows(c, rows, seed, cover=False):
    """List of dicts node -> label, drawn from random conditional tables along the graph."""
    r = np.random.RandomState(seed)
    names = c["names"]
    pa = {k: sorted(u for u, v in c["edges"] if v == k) for k in range(len(names))}
    order = list(nx.topological_sort(nx.DiGraph([tuple(e) for e in c["edges"]])))
    tabs = {}
    out = []
    for _ in range(rows):
        row = {}
        for v in order:
            key = (v,) + tuple(row[u] for u in pa[v])
            if key not in tabs:
                tabs[key] = r.dirichlet([c["alpha"]] * len(c["states"][v]))
            row[v] = int(np.searchsorted(np.cumsum(tabs[key])[:-1], r.rand(), side="right"))
        out.append({names[v]: c["states"][v][i] for v, i in row.items()})
    if cover:
        m = max(len(s) for s in c["states"])
        out += [{names[v]: c["states"][v][(k + v) % len(c["states"][v])] for v in range(len(names))} for k in range(m)]
        out = [out[k] for k in r.permutation(len(out))]
    return out


def table(c, rows, cols=None, extra=False, index=None):
    import pandas as pd
    names = [c["names"][k] for k in c["cols"]] if cols is None else cols
    data = {v: [r[v] for r in rows] for v in names}
    if extra:
        data["some other column"] = list(range(len(rows)))
    kind = index or c["index"]
    n = len(rows)
    ix = {"range": None, "shift": [k * 2 + 7 for k in range(n)], "str": ["r%d" % k for k in range(n)], "rev": list(range(n))[::-1]}[kind]
    return pd.DataFrame(data) if ix is None else pd.DataFrame(data, index=ix)


def snapshot(df):
    return (list(df.columns), list(df.index), [list(df[x]) for x in df.columns])


def method_kw(c):
    return {"mle": {}, "k2": dict(method="BayesianEstimator", bayes_prior="K2"),
            "bdeu": dict(method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=c["ess"])}[c["method"]]


def fitted(c):
    """(network, training rows, states per node)."""
    m = bnmod()
    rows = sample_rows(c, c["rows"], c["seed"], c["cover"])
    df = table(c, rows)
    bn = m.BayesianNetwork(structure(c))
    if c.get("prior"):
        earlier_life(c, bn)
    if c["cover"] and c.get("prior") == "cpds":
        # only the tables are learned again
        states = {v: set(s) for v, s in zip(c["names"], c["states"])}
        bn.fit_cpds(df, **method_kw(c))
    elif c["cover"]:
        states = {v: set(r[v] for r in rows) for v in c["names"]}
        bn.fit_node_states_and_cpds(df, **method_kw(c))
    else:
        states = {v: set(s) for v, s in zip(c["names"], c["states"])}
        bn.node_states = {v: set(s) for v, s in states.items()}
        bn.fit_cpds(df, **method_kw(c))
    return bn, rows, states


def earlier_life(c, bn):
    """The network was fitted and used before, on other rows or with other states."""
    states, c0 = c["states"], c
    if c["prior"] == "states":
        c0 = dict(c, states=[["q%s" % s for s in ss] if k % 2 == 0 else list(ss)[::-1][:max(2, len(ss) - 1)] for k, ss in enumerate(states)])
    rows = sample_rows(c0, 6, c["seed"] + 1, True)
    if c["prior"] == "cpds":
        bn.node_states = {v: set(s) for v, s in zip(c["names"], states)}
        bn.fit_cpds(table(c0, rows))
    else:
        bn.fit_node_states_and_cpds(table(c0, rows))
    read_tables(bn)
    for v in c["names"]:
        bn.predict(table(c0, rows[:2]), v)
        bn.predict_probability(table(c0, rows[:2]), v)
        pa = parents_of(c)[v]
        if pa and len(c["names"]) <= 6:
            rest = [u for u in c["names"] if u != v and u != pa[0]]
            if rest:
                bn.predict(table(c0, rows[:1], cols=rest), v)
                bn.predict_probability(table(c0, rows[:1], cols=rest), v)


def expected_table(c, rows, states, v, method=None):
    """{parent labels: {state: probability}} by counting; None where no row has these parents (maximum likelihood)."""
    pa = parents_of(c)[v]
    method = method or c["method"]
    out = {}
    combos = list(itertools.product(*[sorted(states[u]) for u in pa]))
    for combo in combos:
        sel = [r for r in rows if all(r[u] == x for u, x in zip(pa, combo))]
        prior = {"mle": 0.0, "k2": 1.0, "bdeu": c["ess"] / (len(combos) * len(states[v]))}[method]
        tot = len(sel) + prior * len(states[v])
        out[combo] = {s: ((sum(1 for r in sel if r[v] == s) + prior) / tot if tot else None) for s in states[v]}
    return out


def read_tables(bn):
    """{node: (parents in table order, {parent labels: {state: probability}})} read by label."""
    out = {}
    for v, t in bn.cpds.items():
        vals = np.asarray(t.values, dtype=float)
        pa = [] if len(list(t.columns)) == 1 and list(t.columns)[0] == "" and not (list(t.columns.names) or [None])[0] else list(t.columns.names)
        d = {}
        for j, col in enumerate(t.columns):
            key = () if not pa else tuple(col) if isinstance(col, tuple) else (col,)
            d[key] = {s: float(vals[i, j]) for i, s in enumerate(t.index)}
        out[v] = (pa, d)
    return out


def desc(c):
    return "network %r, states %r" % ([(c["names"][u], c["names"][v]) for u, v in c["edges"]], dict(zip(c["names"], c["states"])))


# ---------------------------------------------------------------- K01
@st.composite
def k01_case(draw):
    n = draw(st.integers(2, 7))
    p = draw(st.sampled_from([1, 2, 4]))
    edges = [[i, j] for i in range(n) for j in range(n) if draw(st.integers(0, 9 if i != j else 29)) < p and (i < j or draw(st.integers(0, 9)) < 2)]
    if draw(st.booleans()):
        edges += [e for e in ([draw(st.integers(0, b - 1)), b] for b in range(1, n)) if e not in edges]
    perm = list(draw(st.permutations(range(n))))
    return {"names": list(draw(st.permutations(WORDS + ODD))[:n]), "edges": [[perm[i], perm[j]] for i, j in edges], "iso": draw(st.booleans()), "cls": draw(st.sampled_from(["sm", "sm", "nx"]))}


def check_k01(c, ctx):
    m = bnmod()
    sm = mods.get("structure.structuremodel")
    g = sm.StructureModel() if c["cls"] == "sm" else nx.DiGraph()
    if c["iso"]:
        g.add_nodes_from(c["names"])
    g.add_edges_from([(c["names"][u], c["names"][v]) for u, v in c["edges"]])
    if g.number_of_edges() == 0 and g.number_of_nodes() <= 1:
        ctx.discard()
    # union-find and repeated removal of sources: nothing shared with networkx' implementation
    root = {v: v for v in g.nodes}

    def find(v):
        while root[v] != v:
            v = root[v]
        return v
    for u, v in g.edges:
        root[find(u)] = find(v)
    connected = len({find(v) for v in g.nodes}) == 1
    left, es = set(g.nodes), set(g.edges)
    while True:
        src = left - {v for u, v in es}
        if not src:
            break
        left -= src
        es = {e for e in es if e[0] in left}
    snap = (list(g.nodes), list(g.edges(data=True)))
    what = "structure with nodes %r and edges %r" % (list(g.nodes), list(g.edges))
    if connected and not left:
        bn = m.BayesianNetwork(g)
        ctx.require(set(bn.nodes) == set(g.nodes) and len(bn.nodes) == len(g.nodes), lambda: "%s: the network has nodes %r" % (what, bn.nodes))
        ctx.require(set(bn.edges) == set(g.edges) and len(bn.edges) == g.number_of_edges(), lambda: "%s: the network has edges %r" % (what, bn.edges))
        ctx.require(bn.cpds == {}, "%s: a new network has tables" % what)
        ctx.require(set(bn.structure.edges) == set(g.edges), "%s: the structure property differs" % what)
        ctx.label("accepted")
    else:
        expect_raises(ctx, (ValueError,), lambda: m.BayesianNetwork(g), what)
        ctx.label("rejected: %s" % ("several components" if not connected else "cycle"))
    ctx.require(snap == (list(g.nodes), list(g.edges(data=True))), "%s was modified" % what)
    ctx.nontrivial(g.number_of_edges() > 1)


@st.composite
def k01_states_case(draw):
    c = draw(net_case(odd=True, smin=1))
    c["op"] = draw(st.sampled_from(["fit", "fit", "set", "missing", "null-set", "null-fit", "missing-fit"]))
    c["which"] = draw(st.integers(0, 9))
    c["null"] = draw(st.sampled_from(["None", "nan"]))
    c["row"] = draw(st.integers(0, 10 ** 6))
    c["extra"] = draw(st.booleans())
    c["again"] = draw(st.sampled_from(["", "", "set", "fit", "fit"]))
    return c


def check_k01_states(c, ctx):
    m = bnmod()
    bn = m.BayesianNetwork(structure(c))
    rows = sample_rows(c, c["rows"], c["seed"], c["cover"])
    df = table(c, rows)
    names = c["names"]
    v = names[c["which"] % len(names)]
    null = None if c["null"] == "None" else float("nan")
    before = None
    if c["again"]:
        before = {x: set([1, 2, 3]) for x in names}
        if c["again"] == "fit":
            bn.fit_node_states(table(c, [{x: k for x in names} for k in (1, 2, 3, 1)]))
        else:
            bn.node_states = before
    what = desc(c)
    if c["op"] == "fit":
        snap = snapshot(df)
        res = bn.fit_node_states(df)
        ctx.require(res is bn, "fit_node_states does not return the network")
        ctx.require(snap == snapshot(df), "%s: learning the states changed the data" % what)
        want = {x: {r[x] for r in rows} for x in names}
        ctx.require(bn.node_states == want, lambda: "%s: learned states %r, the data has %r" % (what, bn.node_states, want))
    elif c["op"] == "set":
        given = {x: set(s) for x, s in zip(names, c["states"])}
        if c["extra"]:
            given["not in the network"] = {1, 2}
        arg = copy.deepcopy(given)
        bn.node_states = arg
        ctx.require(arg == given, "%s: setting the states changed the dictionary" % what)
        got = bn.node_states
        ctx.require({x: got[x] for x in names} == {x: given[x] for x in names}, lambda: "%s: states %r" % (what, got))
    else:
        exc, fn = None, None
        if c["op"] == "missing":
            given = {x: set(s) for x, s in zip(names, c["states"]) if x != v}
            if c["extra"]:
                given["not in the network"] = {1}
            exc = (KeyError,)

            def fn():
                bn.node_states = given
        elif c["op"] == "null-set":
            given = {x: set(s) for x, s in zip(names, c["states"])}
            given[v] = set(list(given[v]) + [null])
            exc = (ValueError,)

            def fn():
                bn.node_states = given
        elif c["op"] == "missing-fit":
            d2 = table(c, rows, cols=[x for x in [names[k] for k in c["cols"]] if x != v])
            exc = (KeyError,)

            def fn():
                bn.fit_node_states(d2)
        else:
            k = c["row"] % len(rows)
            bad = [dict(r) for r in rows]
            bad[k][v] = null
            d2 = table(c, bad)
            exc = (ValueError,)

            def fn():
                bn.fit_node_states(d2)
        expect_raises(ctx, exc, fn, "%s: states with %s (%r)" % (what, c["op"], v))
        if before is not None:
            ctx.require(bn.node_states == before, lambda: "%s: rejected states replaced the previous ones" % what)
    ctx.label(c["op"])
    ctx.nontrivial()


# ---------------------------------------------------------------- K02
@st.composite
def k02_case(draw):
    c = draw(net_case(odd=True))
    c["fits"] = [[draw(st.sampled_from(["mle", "mle", "k2", "bdeu"])), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([30, 1, 3, 10, 60])), draw(st.booleans()), draw(st.sampled_from(["fit_cpds", "fit_cpds", "both", "bad"]))]
                 for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    c["extra"] = draw(st.booleans())
    return c


def check_k02(c, ctx):
    m = bnmod()
    bn = m.BayesianNetwork(structure(c))
    names = c["names"]
    states = {v: set(s) for v, s in zip(names, c["states"])}
    bn.node_states = {v: set(s) for v, s in states.items()}
    what = desc(c)
    last = None
    for method, seed, nrows, cover, how in c["fits"]:
        rows = sample_rows(c, nrows, seed, cover)
        k = dict(c, method=method)
        df = table(k, rows, extra=c["extra"] and how != "both")
        snap = snapshot(df)
        if how == "bad":
            bad = {"mle": [dict(method="mle"), dict(method="K2", bayes_prior="K2"), dict(method=None, bayes_prior="BDeu", equivalent_sample_size=3)][seed % 3], "k2": dict(method="BayesianEstimator", bayes_prior="k2"), "bdeu": dict(method="BayesianEstimator")}[method]
            expect_raises(ctx, (ValueError,), lambda: bn.fit_cpds(df, **bad), "fit_cpds with %r" % bad)
        else:
            if how == "both":
                states = {v: {r[v] for r in rows} for v in names}
                res = bn.fit_node_states_and_cpds(df, **method_kw(k))
            else:
                if not all(r[v] in states[v] for r in rows for v in names):
                    continue
                res = bn.fit_cpds(df, **method_kw(k))
            ctx.require(res is bn, "fitting does not return the network")
            last = (rows, method)
        ctx.require(snap == snapshot(df), lambda: "%s: fitting changed the data" % what)
        if last is None:
            continue
        tabs = read_tables(bn)
        ctx.require(set(tabs) == set(names), lambda: "%s: tables for %r" % (what, sorted(tabs)))
        for v in names:
            pa, t = tabs[v]
            ctx.require(sorted(pa) == parents_of(c)[v], lambda: "%s: the table of %r is conditioned on %r" % (what, v, pa))
            want = expected_table(c, last[0], states, v, last[1])
            pos = [pa.index(u) for u in parents_of(c)[v]]
            ctx.require(len(t) == len(want), lambda: "%s: the table of %r has %d columns instead of %d" % (what, v, len(t), len(want)))
            for key, col in t.items():
                w = want.get(tuple(key[i] for i in pos))
                ctx.require(w is not None and set(col) == states[v], lambda: "%s: table of %r, column %r has states %r" % (what, v, key, list(col)))
                ctx.require(abs(sum(col.values()) - 1) < 1e-9 and min(col.values()) >= 0, lambda: "%s: table of %r, column %r sums to %r" % (what, v, key, sum(col.values())))
                for s, p in col.items():
                    ctx.require(w[s] is None or abs(p - w[s]) < 1e-9, lambda: "%s: P(%r=%r | %r) is %r, counted %r (%s, %d rows)" % (what, v, s, dict(zip(pa, key)), p, w[s], last[1], len(last[0])))
                if w and None in w.values():
                    ctx.label("parent states not in the data")
        ctx.label(last[1])
    ctx.nontrivial(last is not None and len(last[0]) >= 10)


# ---------------------------------------------------------------- K03
@st.composite
def k03_case(draw):
    c = draw(net_case(odd=True))
    c["test"] = [draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([10, 1, 2, 6, 15])), draw(st.sampled_from(["range", "shift", "str", "rev"]))]
    c["node"] = draw(st.integers(0, 9))
    c["drop"] = draw(st.lists(st.integers(0, 9), max_size=4))
    c["tcols"] = list(draw(st.permutations(range(len(c["names"])))))
    c["extra"] = draw(st.booleans())
    return c


def test_table(c, v, need, rows):
    """Columns: everything except the dropped ones, never dropping those needed."""
    drop = {c["names"][k % len(c["names"])] for k in c["drop"]} - set(need)
    cols = [c["names"][k] for k in c["tcols"] if c["names"][k] not in drop]
    return table(c, rows, cols=cols, extra=c["extra"], index=c["test"][2])


def check_k03(c, ctx):
    bn, rows, states = fitted(c)
    v = c["names"][c["node"] % len(c["names"])]
    pa = parents_of(c)[v]
    trows = [r for r in sample_rows(c, c["test"][1] * 2, c["test"][0]) if all(r[u] in states[u] for u in pa)][:c["test"][1]]
    if not trows:
        ctx.discard()
    df = test_table(c, v, pa, trows)
    if not list(df.columns):
        ctx.discard()
    what = "%s, predicting %r from %r" % (desc(c), v, list(df.columns))
    snap = snapshot(df)
    tpa, t = read_tables(bn)[v]
    dist = [t[tuple(r[u] for u in tpa)] for r in trows]
    for _ in range(2):
        pred = bn.predict(df, v)
        ctx.require(snapshot(df) == snap, "%s: predicting changed the data" % what)
        ctx.require(list(pred.columns) == ["%s_prediction" % v], lambda: "%s: columns %r" % (what, list(pred.columns)))
        ctx.require(list(pred.index) == list(df.index), lambda: "%s: index %r instead of %r" % (what, list(pred.index), list(df.index)))
        for k, (x, d) in enumerate(zip(list(pred["%s_prediction" % v]), dist)):
            ctx.require(x in d and d[x] >= max(d.values()) - 1e-12, lambda: "%s: row %d %r: predicted %r, probabilities %r" % (what, k, trows[k], x, d))
        prob = bn.predict_probability(df, v)
        ctx.require(snapshot(df) == snap, "%s: predicting probabilities changed the data" % what)
        want = ["%s_%s" % (v, s) for s in states[v]]
        ctx.require(sorted(prob.columns) == sorted(want), lambda: "%s: columns %r, expected %r" % (what, list(prob.columns), want))
        ctx.require(list(prob.index) == list(df.index), lambda: "%s: index %r instead of %r" % (what, list(prob.index), list(df.index)))
        for s in states[v]:
            for k, (x, d) in enumerate(zip(list(prob["%s_%s" % (v, s)]), dist)):
                ctx.require(abs(x - d[s]) < 1e-12, lambda: "%s: row %d %r: P(%r) is %r, the table says %r" % (what, k, trows[k], s, x, d[s]))
    ctx.label("parents %d" % min(len(pa), 3))
    ctx.label("column named like a result", bool(set(df.columns) & set(want + ["%s_prediction" % v])))
    ctx.nontrivial(len(pa) > 0 and len({tuple(d.values()) for d in dist}) > 1)


# ---------------------------------------------------------------- K04
@st.composite
def k04_case(draw):
    c = draw(net_case(odd=True, nmax=8, smax=3))
    c["test"] = [draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([1, 2, 5])), draw(st.sampled_from(["range", "shift", "str"]))]
    c["node"] = draw(st.integers(0, 9))
    c["drop"] = draw(st.lists(st.integers(0, 9), max_size=4))
    c["tcols"] = list(draw(st.permutations(range(len(c["names"])))))
    c["dropped"] = draw(st.integers(0, 9))
    c["own"] = draw(st.booleans())
    return c


def check_k04(c, ctx):
    bn, rows, states = fitted(c)
    withpa = [v for v in c["names"] if parents_of(c)[v]]
    v = withpa[c["node"] % len(withpa)]
    gone = parents_of(c)[v][c["dropped"] % len(parents_of(c)[v])]
    names = c["names"]
    drop = ({names[k % len(names)] for k in c["drop"]} | {gone}) - {v}
    cols = [names[k] for k in c["tcols"] if names[k] not in drop and (c["own"] or names[k] != v)]
    if not [x for x in cols if x != v]:
        ctx.discard()
    order, J = joint(read_tables(bn), states)
    trows = sample_rows(c, c["test"][1] * 4, c["test"][0])
    ok = []
    for r in trows:
        if all(r[u] in states[u] for u in cols):
            P = condition(order, J, states, {u: r[u] for u in cols if u != v})
            if P.sum() > 1e-9:
                ok.append((r, P / P.sum()))
    ok = ok[:c["test"][1]]
    if not ok:
        ctx.discard()
    df = table(c, [r for r, _ in ok], cols=cols, index=c["test"][2])
    snap = snapshot(df)
    what = "%s, predicting %r from %r" % (desc(c), v, cols)
    prob = bn.predict_probability(df, v)
    ctx.require(snapshot(df) == snap, "%s: predicting probabilities changed the data" % what)
    want = ["%s_%s" % (v, s) for s in states[v]]
    ctx.require(sorted(prob.columns) == sorted(want), lambda: "%s: columns %r, expected %r" % (what, list(prob.columns), want))
    ax = order.index(v)
    post = [P.sum(axis=tuple(a for a in range(P.ndim) if a != ax)) for _, P in ok]
    ss = sorted(states[v])
    for s in ss:
        for k, x in enumerate(list(prob["%s_%s" % (v, s)])):
            ctx.require(abs(x - post[k][ss.index(s)]) < 1e-9, lambda: "%s: row %d %r: P(%r) is %r, expected %r" % (what, k, ok[k][0], s, x, post[k][ss.index(s)]))
    pred = bn.predict(df, v)
    ctx.require(snapshot(df) == snap, "%s: predicting changed the data" % what)
    ctx.require(list(pred.columns) == ["%s_prediction" % v] and len(pred) == len(ok), lambda: "%s: columns %r, %d rows" % (what, list(pred.columns), len(pred)))
    for k, x in enumerate(list(pred["%s_prediction" % v])):
        P = ok[k][1]
        best = P.max(axis=tuple(a for a in range(P.ndim) if a != ax))
        fine = [s for i, s in enumerate(ss) if best[i] >= best.max() - 1e-12 or post[k][i] >= post[k].max() - 1e-12]
        ctx.require(any(x == s and isinstance(x, str) == isinstance(s, str) for s in fine), lambda: "%s: row %d %r: predicted %r, most probable: %r" % (what, k, ok[k][0], x, fine))
    ctx.label("own column supplied", c["own"])
    ctx.nontrivial(len(cols) > 1)


# ---------------------------------------------------------------- joint
def joint(tabs, states, do=None):
    """(axis order, joint array); `do` maps a variable to its imposed distribution."""
    order = sorted(tabs)
    pos = {v: {s: i for i, s in enumerate(sorted(states[v]))} for v in order}
    J = np.ones([len(states[v]) for v in order])
    for v in order:
        pa, t = tabs[v]
        if do and v in do:
            pa, t = [], {(): do[v]}
        vs = pa + [v]
        F = np.zeros([len(states[x]) for x in vs])
        for key, col in t.items():
            for s, p in col.items():
                F[tuple(pos[u][x] for u, x in zip(pa, key)) + (pos[v][s],)] = p
        ax = [order.index(x) for x in vs]
        F = np.transpose(F, np.argsort(ax))
        J = J * F.reshape([J.shape[a] if a in ax else 1 for a in range(len(order))])
    return order, J


def condition(order, J, states, obs):
    P = J
    for v, s in obs.items():
        m = np.zeros(len(states[v]))
        m[sorted(states[v]).index(s)] = 1
        P = P * m.reshape([-1 if x == v else 1 for x in order])
    return P


def compare(ctx, res, order, J, states, obs, what):
    P = condition(order, J, states, obs)
    z = P.sum()
    if 0 < z < 1e-250:
        return
    ctx.require(set(res) == set(order), lambda: "%s: answer for %r" % (what, sorted(res)))
    for a, v in enumerate(order):
        ctx.require(set(res[v]) == set(states[v]) and len(res[v]) == len(states[v]), lambda: "%s: states of %r are %r, expected %r" % (what, v, list(res[v]), sorted(states[v])))
        m = P.sum(axis=tuple(b for b in range(P.ndim) if b != a))
        for i, s in enumerate(sorted(states[v])):
            want = m[i] / z if z > 0 else 0.0
            ctx.require(abs(res[v][s] - want) < 1e-9, lambda: "%s: P(%r=%r) is %r, expected %r" % (what, v, s, res[v][s], want))


# ---------------------------------------------------------------- I01
@st.composite
def obs_list(draw, c, k):
    out = []
    for _ in range(k):
        vs = draw(st.lists(st.integers(0, len(c["names"]) - 1), unique=True, max_size=len(c["names"])))
        out.append([[v, draw(st.integers(0, 3))] for v in vs])
    return out


@st.composite
def i01_case(draw):
    c = draw(net_case())
    c["obs"] = draw(obs_list(c, draw(st.integers(1, 3))))
    c["refit"] = draw(st.sampled_from([None, None, "cpds", "states"]))
    return c


def engine(bn):
    return mods.get("inference.inference").InferenceEngine(bn)


def obs_of(c, states, pairs):
    out = {}
    for v, i in pairs:
        n = c["names"][v]
        ss = sorted(states[n])
        out[n] = ss[i % len(ss)]
    return out


def check_i01(c, ctx):
    bn, rows, states = fitted(c)
    tabs = read_tables(bn)
    ie = engine(bn)
    order, J = joint(tabs, states)
    what = desc(c)
    compare(ctx, ie.query(), order, J, states, {}, "%s, no observation" % what)
    for pairs in c["obs"]:
        obs = obs_of(c, states, pairs)
        snap = dict(obs)
        compare(ctx, ie.query(obs), order, J, states, obs, "%s, observing %r" % (what, obs))
        ctx.require(list(obs.items()) == list(snap.items()), "%s: the observations %r became %r" % (what, snap, obs))
    compare(ctx, ie.query({}), order, J, states, {}, "%s, empty observation" % what)
    ctx.require(read_tables(bn) == tabs, "%s: querying changed the network's tables" % what)
    if c.get("refit"):
        # an engine keeps answering for the tables it was made from
        k = dict(c, states=[["q%s" % s for s in ss] for ss in c["states"]]) if c["refit"] == "states" else c
        later = sample_rows(k, 9, c["seed"] + 5, True)
        bn.fit_node_states_and_cpds(table(k, later))
        compare(ctx, ie.query(), order, J, states, {}, "%s, after the network was fitted again" % what)
        for pairs in c["obs"][:1]:
            obs = obs_of(c, states, pairs)
            compare(ctx, ie.query(obs), order, J, states, obs, "%s, after the network was fitted again, observing %r" % (what, obs))
        ctx.label("engine used after its network was fitted again")
    ctx.label("rows %d" % c["rows"])
    ctx.nontrivial(any(c["obs"]))


SPECIAL = ["self", "args", "values", "name", "template", "kwds", "query", "state", "node", "if", "None", "lambda", "f_a", "cls", "observations", "_", "__class__"]


@st.composite
def i01_self_case(draw):
    c = draw(net_case(nmax=3))
    c["which"] = draw(st.integers(0, 2))
    c["special"] = draw(st.sampled_from(SPECIAL + ["self", "self"]))
    return c


def check_i01_self(c, ctx):
    """A variable may have a name that also means something to the engine or to Python."""
    c = dict(c, names=list(c["names"]))
    k = c["which"] % len(c["names"])
    if c["special"] in c["names"]:
        c["names"][c["names"].index(c["special"])] = c["names"][k]
    c["names"][k] = c["special"]
    bn, rows, states = fitted(c)
    ie = engine(bn)
    order, J = joint(read_tables(bn), states)
    compare(ctx, ie.query(), order, J, states, {}, desc(c) + ", no observation")
    for which in range(len(c["names"])):
        obs = obs_of(c, states, [[which, 1]])
        try:
            got = ie.query(obs)
        except TypeError as e:
            # listed in known_findings.txt
            ctx.require(which == k and c["special"] == "self" and "multiple values for argument 'self'" in str(e),
                        lambda: "%s, observing %r: TypeError: %s" % (desc(c), obs, e))
            ctx.label("known finding: variable named self observed")
            continue
        compare(ctx, got, order, J, states, obs, "%s, observing %r" % (desc(c), obs))
    ctx.label(c["special"])
    ctx.nontrivial()


@st.composite
def i01_bad_case(draw):
    c = draw(net_case(nmax=4))
    bad = draw(st.sampled_from(["x y", "a.b", "é", "a-b", "", " ", "a\n", "\n", "a\t", "名", "a$", "a(", "x'", "²", "a\u0301"]))
    c["bad"] = bad
    c["where"] = draw(st.integers(0, 9))
    c["kind"] = draw(st.sampled_from(["name", "name", "name", "unlearned", "states only"] + ["observation"] * 4))
    c["obs"] = draw(obs_list(c, 1))[0]
    c["wrong"] = draw(st.sampled_from(["unknown variable", "unknown variable", "state of another type", "unknown state", "None", "text of a state", "case"]))
    return c


def wrong_observation(kind, c, states, obs, v):
    """An observation set with one entry the network does not know, or None."""
    ss = sorted(states[v])
    if kind == "unknown variable":
        return dict(obs, **{"no such variable": ss[0]})
    if kind == "case":
        other = v.swapcase()
        return dict(obs, **{other: ss[0]}) if other not in c["names"] else None
    new = {"state of another type": 0.12345, "unknown state": "no such state", "None": None, "text of a state": str(ss[0])}[kind]
    return dict(obs, **{v: new}) if new not in states[v] else None


def check_i01_bad(c, ctx):
    m = bnmod()
    if c["kind"] == "name":
        c = dict(c, names=list(c["names"]))
        c["names"][c["where"] % len(c["names"])] = c["bad"]
        bn = fitted(c)[0]
    elif c["kind"] == "observation":
        bn, rows, states = fitted(c)
        ie = engine(bn)
        obs = obs_of(c, states, c["obs"])
        bad = wrong_observation(c["wrong"], c, states, obs, c["names"][c["where"] % len(c["names"])])
        if bad is None:
            ctx.discard()
        ex = sys.modules["causalnex.ebaybbn.exceptions"]
        exc = (ex.VariableNotInGraphError,) if c["wrong"] in ("unknown variable", "case") else (ex.VariableValueNotInDomainError,)
        tabs = read_tables(bn)
        for _ in range(2):
            expect_raises(ctx, exc, lambda: ie.query(bad), "%s: query(%r)" % (desc(c), bad))
        order, J = joint(tabs, states)
        compare(ctx, ie.query(obs), order, J, states, obs, "%s, after a rejected query, observing %r" % (desc(c), obs))
        ctx.label("rejected observation: " + c["wrong"])
        ctx.nontrivial()
        return
    else:
        bn = m.BayesianNetwork(structure(c))
        if c["kind"] == "states only":
            bn.node_states = {v: set(s) for v, s in zip(c["names"], c["states"])}
    expect_raises(ctx, (ValueError,), lambda: engine(bn), "inference engine for %s (%s)" % (desc(c), c["kind"]))
    ctx.label(c["kind"])
    ctx.nontrivial()


# ---------------------------------------------------------------- I02
@st.composite
def i02_case(draw):
    c = draw(net_case(nmax=6, smax=3))
    n = len(c["names"])
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["state", "state", "dist", "dist", "reset", "query", "bad"]))
        v = draw(st.integers(0, n - 1))
        if op == "state":
            ops.append([op, v, draw(st.integers(0, 3) | st.integers(0, 12))])
        elif op == "dist":
            ops.append([op, v, draw(st.lists(st.integers(0, 20), min_size=4, max_size=4)), draw(st.booleans())])
        elif op == "reset":
            ops.append([op, v])
        elif op == "bad":
            ops.append([op, v, draw(st.sampled_from(["sum", "sum low", "sum high", "negative", "negative tiny", "negative abs", "negative far", "missing state", "extra state", "unknown state", "none", "empty", "nan", "unknown node", "wrong states", "text", "texts"]))])
        else:
            ops.append([op, draw(obs_list(c, 1))[0]])
    c["ops"] = ops
    c["obs"] = draw(obs_list(c, 1))[0]
    return c


def distribution(ss, weights):
    w = [weights[k % len(weights)] + 0.0 for k in range(len(ss))]
    if sum(w) == 0:
        w[0] = 1.0
    t = sum(w)
    return {s: x / t for s, x in zip(ss, w)}


def bad_state(kind, ss, d):
    d = dict(d)
    first = ss[0]
    if kind == "sum":
        return {s: p + (0.25 if s == first and p <= 0.75 else 0) - (0.25 if s == first and p > 0.75 else 0) for s, p in d.items()}
    if kind == "sum low":
        return {s: p * 0.998 for s, p in d.items()}
    if kind == "negative":
        u = {s: 0.0 for s in ss}
        u[ss[0]], u[ss[1]] = -0.5, 1.5
        return u
    if kind == "negative tiny":
        u = {s: 0.0 for s in ss}
        u[ss[1]], u[ss[0]] = -1e-3, 1.001
        return u
    if kind == "negative abs":     # the absolute values sum to one
        u = {s: 0.0 for s in ss}
        u[ss[-1]], u[ss[0]] = -0.25, 0.75
        return u
    if kind == "negative far":     # no value exceeds one
        u = {s: 0.0 for s in ss}
        u[ss[0]], u[ss[1]], u[ss[-1]] = -0.5, 1.0, 0.5 if len(ss) > 2 else 1.0
        return u
    if kind == "sum high":
        return {s: p * 1.001 for s, p in d.items()}
    if kind == "missing state":
        u = {s: 0.0 for s in ss[1:]}
        u[ss[1]] = 1.0
        return u
    if kind == "extra state":
        return dict(d, **{"some other state": 0.0})
    if kind == "wrong states":
        return {("x", s): p for s, p in d.items()}
    if kind == "unknown state":
        return "some other state"
    if kind == "text":          # the text of a state that is not text
        return str(ss[0])
    if kind == "texts":
        return {str(s): p for s, p in d.items()}
    if kind == "none":
        return None
    if kind == "empty":
        return {}
    return dict(d, **{first: float("nan")}) if isinstance(first, str) else {s: (float("nan") if s == first else p) for s, p in d.items()}


def check_i02(c, ctx):
    bn, rows, states = fitted(c)
    tabs = read_tables(bn)
    ie = engine(bn)
    do = {}
    kids = {v: {c["names"][j] for i, j in c["edges"] if c["names"][i] == v} for v in c["names"]}
    what = desc(c)
    hist = []
    obs = obs_of(c, states, c["obs"])
    did = 0

    def verify(note):
        order, J = joint(tabs, states, do)
        h = "%s after %r" % (what, hist)
        compare(ctx, ie.query(), order, J, states, {}, "%s%s, no observation" % (h, note))
        compare(ctx, ie.query(obs), order, J, states, obs, "%s%s, observing %r" % (h, note, obs))
    first = ie.query()
    for op in c["ops"]:
        if op[0] == "query":
            o = obs_of(c, states, op[1])
            order, J = joint(tabs, states, do)
            compare(ctx, ie.query(o), order, J, states, o, "%s after %r, observing %r" % (what, hist, o))
            continue
        v = c["names"][op[1]]
        ss = sorted(states[v])
        if len(ss) < 2 and op[0] == "bad":
            continue
        if op[0] == "reset":
            ie.reset_do(v)
            do.pop(v, None)
            hist.append("reset %r" % v)
            ctx.label("reset of an intervened variable", True)
        elif op[0] == "bad":
            node, arg = v, None
            if op[2] == "unknown node":
                node, arg = "not a node", ss[0]
            else:
                arg = bad_state(op[2], ss, distribution(ss, [3, 1, 2, 1]))
                if op[2] in ("text", "texts") and isinstance(ss[0], str):
                    continue
            expect_raises(ctx, (ValueError,), lambda: ie.do_intervention(node, arg), "%s after %r: do_intervention(%r, %r)" % (what, hist, node, arg))
            verify(", then the rejected do_intervention(%r, %r)" % (node, arg))
            ctx.label("rejected: " + op[2])
            continue
        else:
            if op[0] == "state":
                arg = ss[op[2] % len(ss)]
                d = {s: float(s == arg) for s in ss}
            else:
                d = distribution(ss, op[2])
                arg = dict(reversed(list(d.items()))) if op[3] else dict(d)
            h = "%s after %r: do_intervention(%r, %r)" % (what, hist, v, arg)
            if not any(k not in do for k in kids[v]):
                expect_raises(ctx, (ValueError,), lambda: ie.do_intervention(v, arg), h + " would leave it isolated")
                verify(", then the rejected do_intervention(%r, %r)" % (v, arg))
                ctx.label("rejected: isolating")
                continue
            snap = copy.deepcopy(arg)
            try:
                ie.do_intervention(v, arg)
            except Exception as e:  # noqa
                ctx.fail("%s raised %s: %s" % (h, type(e).__name__, e))
            ctx.require(arg == snap, "%s changed its argument" % h)
            do[v] = d
            did += 1
            hist.append("do %r=%r" % (v, arg))
            ctx.label("several interventions in force", len(do) > 1)
        verify("")
    for v in list(do):
        ie.reset_do(v)
    do.clear()
    last = ie.query()
    ctx.require(all(abs(first[v][s] - last[v][s]) < 1e-9 for v in first for s in first[v]), lambda: "%s: after resetting everything (%r) the answers are not the original ones" % (what, hist))
    ctx.require(read_tables(bn) == tabs, "%s: interventions changed the network's tables" % what)
    ctx.nontrivial(did > 0 and len(c["names"]) > 2)


# ---------------------------------------------------------------- E01 / E02
@st.composite
def eval_case(draw):
    c = draw(net_case(odd=True))
    c["test"] = [draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([20, 1, 3, 10, 40])), draw(st.sampled_from(["range", "shift", "str"]))]
    c["node"] = draw(st.integers(0, 9))
    c["drop"] = draw(st.lists(st.integers(0, 9), max_size=3))
    c["tcols"] = list(draw(st.permutations(range(len(c["names"])))))
    c["extra"] = draw(st.booleans())
    c["tcover"] = draw(st.booleans())
    return c


def eval_setup(c, ctx):
    bn, rows, states = fitted(c)
    v = c["names"][c["node"] % len(c["names"])]
    pa = parents_of(c)[v]
    trows = [r for r in sample_rows(c, c["test"][1] * 2, c["test"][0], c["tcover"]) if all(r[u] in states[u] for u in pa + [v])][:c["test"][1] + 4]
    if not trows or len(states[v]) < 2:
        ctx.discard()
    df = test_table(c, v, pa + [v], trows)
    tpa, t = read_tables(bn)[v]
    dist = [t[tuple(r[u] for u in tpa)] for r in trows]
    return bn, states, v, trows, df, dist, "%s, evaluating %r on %d rows" % (desc(c), v, len(trows))


def check_e01(c, ctx):
    bn, states, v, trows, df, dist, what = eval_setup(c, ctx)
    ev = mods.get("evaluation.evaluation")
    snap = snapshot(df)
    tabs = read_tables(bn)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        roc, auc = ev.roc_auc(bn, df, v)
    ctx.require(snapshot(df) == snap, "%s: the data was changed" % what)
    ctx.require(read_tables(bn) == tabs, "%s: the network was changed" % what)
    pairs = [(d[s], r[v] == s) for r, d in zip(trows, dist) for s in states[v]]
    ps = sorted(set(p for p, _ in pairs))
    if any(b - a < 1e-9 for a, b in zip(ps, ps[1:])):
        ctx.discard()       # equal up to rounding: whether they tie is not specified
    P, N = sum(y for _, y in pairs), sum(not y for _, y in pairs)
    pos = np.array([p for p, y in pairs if y])
    neg = np.array([p for p, y in pairs if not y])
    cmp_ = pos[:, None] - neg[None, :]
    want = float(((cmp_ > 1e-12).sum() + 0.5 * (np.abs(cmp_) <= 1e-12).sum()) / (P * N))
    ctx.require(abs(auc - want) < 1e-9, lambda: "%s: AUC is %r, counting pairs gives %r" % (what, auc, want))
    pts = [(0.0, 0.0)] + [((neg >= t - 1e-12).mean(), (pos >= t - 1e-12).mean()) for t in sorted(set(p for p, _ in pairs), reverse=True)]
    ctx.require(abs(roc[0][0]) + abs(roc[0][1]) < 1e-12 and abs(roc[-1][0] - 1) + abs(roc[-1][1] - 1) < 1e-12, lambda: "%s: the curve goes from %r to %r" % (what, roc[0], roc[-1]))
    A = np.array(pts)
    for x, y in roc:
        ctx.require(float(np.abs(A - np.array([x, y])).max(axis=1).min()) < 1e-9, lambda: "%s: (%r, %r) is not a point of the curve %r" % (what, x, y, pts))
    ctx.require(all(b[0] >= a[0] - 1e-12 and b[1] >= a[1] - 1e-12 for a, b in zip(roc, roc[1:])), "%s: the curve is not monotone" % what)
    area = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(roc, roc[1:]))
    ctx.require(abs(area - want) < 1e-9, lambda: "%s: the area under the returned curve is %r, expected %r" % (what, area, want))
    ctx.label("some state missing from the test data", len({r[v] for r in trows}) < len(states[v]))
    ctx.label("string order differs from state order", sorted(states[v]) != sorted(states[v], key=str))
    ctx.nontrivial(len(trows) > 2 and abs(want - 0.5) > 1e-9)


def check_e02(c, ctx):
    bn, states, v, trows, df, dist, what = eval_setup(c, ctx)
    ev = mods.get("evaluation.evaluation")
    snap = snapshot(df)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rep = ev.classification_report(bn, df, v)
    ctx.require(snapshot(df) == snap, "%s: the data was changed" % what)
    auto = None
    pred = []
    for k, d in enumerate(dist):
        top = [s for s, p in d.items() if p >= max(d.values()) - 1e-12]
        if len(top) > 1:
            auto = auto or list(bn.predict(df, v)["%s_prediction" % v])
            ctx.require(auto[k] in top, lambda: "%s: predicted %r, most probable %r" % (what, auto[k], top))
            pred.append(auto[k])
        else:
            pred.append(top[0])
    true = [r[v] for r in trows]
    for s in states[v]:
        key = "%s_%s" % (v, s)
        ctx.require(key in rep, lambda: "%s: no entry %r in %r" % (what, key, list(rep)))
        tp = sum(1 for t, p in zip(true, pred) if t == s and p == s)
        np_, nt = sum(1 for p in pred if p == s), sum(1 for t in true if t == s)
        pr, rc = tp / np_ if np_ else 0.0, tp / nt if nt else 0.0
        want = {"precision": pr, "recall": rc, "f1-score": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "support": nt}
        for k, w in want.items():
            ctx.require(abs(rep[key][k] - w) < 1e-9, lambda: "%s: %s of %s is %r, counted %r; true %r predicted %r" % (what, k, key, rep[key][k], w, true, pred))
    ctx.require(not [k for k in rep if k.startswith("%s_" % v) and k not in {"%s_%s" % (v, s) for s in states[v]}], lambda: "%s: unexpected entries in %r" % (what, list(rep)))
    ctx.label("some state missing from the test data", len(set(true)) < len(states[v]))
    ctx.nontrivial(len(trows) > 2 and len(set(pred)) > 1)


PROPS = {
    "K01": lambda: Prop("K01", [Leg("structures", k01_case, check_k01, 8000), Leg("states", k01_states_case, check_k01_states, 4000)], ""),
    "K02": lambda: Prop("K02", [Leg("tables", k02_case, check_k02, 6400), Leg("many rows", lambda: many(k02_case()), check_k02, 60)], ""),
    "K03": lambda: Prop("K03", [Leg("complete rows", k03_case, check_k03, 6400), Leg("many rows", lambda: many(k03_case()), check_k03, 60)], ""),
    "K04": lambda: Prop("K04", [Leg("incomplete rows", k04_case, check_k04, 6400), Leg("many rows", lambda: many(k04_case()), check_k04, 40)], ""),
    "I01": lambda: Prop("I01", [Leg("queries", i01_case, check_i01, 4800), Leg("rejections", i01_bad_case, check_i01_bad, 1200),
                                Leg("special names", i01_self_case, check_i01_self, 240)], ""),
    "I02": lambda: Prop("I02", [Leg("histories", i02_case, check_i02, 4800)], ""),
    "E01": lambda: Prop("E01", [Leg("roc", eval_case, check_e01, 4800), Leg("many rows", lambda: many(eval_case()), check_e01, 60)], ""),
    "E02": lambda: Prop("E02", [Leg("report", eval_case, check_e02, 4800), Leg("many rows", lambda: many(eval_case()), check_e02, 60)], ""),
}
