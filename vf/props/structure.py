"""S01-S04: StructureModel."""
import copy
import pickle

import networkx as nx
from hypothesis import strategies as st

from .. import mods
from ..core import Leg, Prop, expect_raises

NODES = ["a", "b", "c", "d", 1, 2, ("t", 1), "x y"]
ORIGINS = ["unknown", "learned", "expert"]
BAD_ORIGINS = ["Learned", "", "experts", None, "EXPERT", " expert", 1, "learned ", "unknown,learned", ("expert",)]
WEIGHTS = [0, 1, -1, 0.5, -0.5, 2, -2.25, 1e-12, -1e-12, 1e9, 0.3, -0.3, 0.1 + 0.2]


def SM():
    return mods.get("structure.structuremodel").StructureModel


# ---------------------------------------------------------------- S01 model-based history
def node():
    return st.sampled_from(NODES)


def attrs():
    return st.dictionaries(st.sampled_from(["k", "color", "weight", "label"]), st.sampled_from([1, "z", 2.5, None, -3]), max_size=2)


@st.composite
def op_strategy(draw, n_graphs):
    g = draw(st.integers(0, n_graphs - 1))
    kind = draw(st.sampled_from(["add", "add", "add", "bulk", "bulk", "wbulk", "wbulk", "badadd", "badbulk", "badw", "badnew",
                                 "rm", "rmn", "addn", "copy", "sub", "merge", "new", "rev", "todir", "deep", "path", "esub",
                                 "undir", "compose", "thr"]))
    orig = draw(st.sampled_from([None] + ORIGINS))
    edge = st.tuples(node(), node())
    if kind in ("add", "badadd"):
        return [kind, g, list(draw(edge)), draw(st.sampled_from(BAD_ORIGINS)) if kind == "badadd" else orig, draw(attrs())]
    if kind in ("bulk", "badbulk"):
        es = [[u, v] + ([draw(attrs())] if draw(st.booleans()) else []) for u, v in draw(st.lists(edge, max_size=draw(st.sampled_from([4, 4, 4, 4, 24]))))]
        return [kind, g, es, draw(st.sampled_from(BAD_ORIGINS)) if kind == "badbulk" else orig, draw(attrs()), draw(st.sampled_from(["list", "gen", "tuple"]))]
    if kind in ("wbulk", "badw"):
        es = [[u, v, draw(st.sampled_from(WEIGHTS))] for u, v in draw(st.lists(edge, max_size=draw(st.sampled_from([4, 4, 4, 4, 24]))))]
        return [kind, g, es, draw(st.sampled_from(BAD_ORIGINS)) if kind == "badw" else orig, draw(attrs()), draw(st.sampled_from(["weight", "weight", "w"]))]
    if kind == "rm":
        return [kind, g, draw(st.integers(0, 10))]
    if kind in ("rmn", "addn"):
        return [kind, g, draw(node())]
    if kind in ("sub", "esub"):
        return [kind, g, draw(st.lists(node(), max_size=5)), draw(st.booleans())]
    if kind in ("merge", "compose"):
        return [kind, g, draw(st.integers(0, n_graphs - 1))]
    if kind in ("new", "badnew"):
        return [kind, g, draw(st.sampled_from(BAD_ORIGINS)) if kind == "badnew" else orig, draw(st.sampled_from(["graph", "edges", "dict"]))]
    if kind == "path":
        return [kind, g, draw(st.lists(node(), min_size=2, max_size=4, unique=True))]
    return [kind, g]


@st.composite
def history(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    k = draw(st.sampled_from([3, 5, 8, 12, 18]))
    return {"n": n, "ops": [draw(op_strategy(n)) for _ in range(k)]}


class Model:
    """Reference: plain dictionaries."""

    def __init__(self):
        self.nodes = []
        self.edges = {}

    def add_node(self, u):
        if u not in self.nodes:
            self.nodes.append(u)

    def add(self, u, v, d):
        self.add_node(u)
        self.add_node(v)
        self.edges.setdefault((u, v), {}).update(d)

    def copy(self):
        m = Model()
        m.nodes = list(self.nodes)
        m.edges = {e: dict(d) for e, d in self.edges.items()}
        return m


def kw(origin):
    return {} if origin is None else {"origin": origin}


def same_graph(g, m, ctx, what):
    got = {(u, v): dict(d) for u, v, d in g.edges(data=True)}
    ctx.require(set(g.nodes) == set(m.nodes), lambda: "%s: nodes are %r, should be %r" % (what, list(g.nodes), m.nodes))
    if got != m.edges:
        ctx.fail("%s: edges are %r, should be %r" % (what, got, m.edges))
    listed = []
    for o in ORIGINS:
        l = list(g.edges_with_origin(o))
        want = [e for e, d in m.edges.items() if d.get("origin") == o]
        ctx.require(len(l) == len(set(l)) and set(l) == set(want), lambda: "%s: edges_with_origin(%r) is %r, should be %r" % (what, o, l, want))
        listed += l
    ctx.require(len(listed) == len(m.edges), "%s: the edges listed by origin do not partition the edges" % what)


def check_history(case, ctx):
    cls = SM()
    gs = [cls() for _ in range(case["n"])]
    ms = [Model() for _ in range(case["n"])]
    readd = False
    for step, op in enumerate(case["ops"]):
        kind, i = op[0], op[1]
        g, m = gs[i], ms[i]
        what = "after step %d %r" % (step, op)
        ctx.count("op " + kind)
        if kind == "add":
            (u, v), o, a = op[2], op[3], op[4]
            readd = readd or (u, v) in m.edges
            g.add_edge(u, v, **kw(o), **a)
            m.add(u, v, dict(a, origin=o or "unknown"))
        elif kind == "bulk":
            es, o, a, form = op[2], op[3], op[4], op[5]
            data = [tuple(copy.deepcopy(e)) for e in es]
            before = repr(data)
            arg = data if form == "list" else (x for x in data) if form == "gen" else tuple(data)
            g.add_edges_from(arg, **kw(o), **a)
            ctx.require(repr(data) == before, "%s: the caller's edge list was changed" % what)
            for e in es:
                readd = readd or (e[0], e[1]) in m.edges
                m.add(e[0], e[1], dict(a, **(e[2] if len(e) == 3 else {}), origin=o or "unknown") if len(e) == 2 else
                      dict(dict(a, origin=o or "unknown"), **e[2]))
        elif kind == "wbulk":
            es, o, a, wname = op[2], op[3], op[4], op[5]
            a = {k: v for k, v in a.items() if k not in ("weight", wname)}
            data = [tuple(e) for e in es]
            if wname == "weight":
                g.add_weighted_edges_from(data, **kw(o), **a)
            else:
                g.add_weighted_edges_from(data, weight=wname, **kw(o), **a)
            for u, v, w in es:
                readd = readd or (u, v) in m.edges
                m.add(u, v, dict(a, origin=o or "unknown", **{wname: w}))
        elif kind == "badadd":
            expect_raises(ctx, (ValueError,), lambda: g.add_edge(op[2][0], op[2][1], origin=op[3], **op[4]), what)
        elif kind == "badbulk":
            expect_raises(ctx, (ValueError,), lambda: g.add_edges_from([tuple(e) for e in op[2]], origin=op[3], **op[4]), what)
        elif kind == "badw":
            a = {k: v for k, v in op[4].items() if k not in ("weight", op[5])}
            expect_raises(ctx, (ValueError,), lambda: g.add_weighted_edges_from([tuple(e) for e in op[2]], weight=op[5], origin=op[3], **a), what)
        elif kind == "badnew":
            expect_raises(ctx, (ValueError,), lambda: cls(g, origin=op[2]), what)
        elif kind == "rm":
            if m.edges:
                e = sorted(m.edges, key=repr)[op[2] % len(m.edges)]
                g.remove_edge(*e)
                del m.edges[e]
        elif kind == "rmn":
            if op[2] in m.nodes:
                g.remove_node(op[2])
                m.nodes.remove(op[2])
                m.edges = {e: d for e, d in m.edges.items() if op[2] not in e}
        elif kind == "addn":
            g.add_node(op[2])
            m.add_node(op[2])
        elif kind in ("copy", "deep"):
            gs[i] = g.copy() if kind == "copy" else (copy.deepcopy(g) if step % 2 else pickle.loads(pickle.dumps(g)))
            ctx.require(type(gs[i]) is cls, "%s: the copy is a %s" % (what, type(gs[i]).__name__))
            # wreck the old one: the copy must not notice
            for u, v in list(g.edges):
                g[u][v]["origin"] = "wrecked"
                g[u][v]["weight"] = "wrecked"
        elif kind == "sub":
            sub = g.subgraph(op[2])
            keep = [x for x in m.nodes if x in op[2]]
            mm = Model()
            mm.nodes = keep
            mm.edges = {e: dict(d) for e, d in m.edges.items() if e[0] in keep and e[1] in keep}
            same_graph(sub, mm, ctx, what + " (view)")
            if op[3]:
                gs[i], ms[i] = sub.copy(), mm
                ctx.require(isinstance(gs[i], cls), "%s: a copied subgraph is a %s" % (what, type(gs[i]).__name__))
        elif kind == "esub":
            keep = [e for e in sorted(m.edges, key=repr) if e[0] in op[2]]
            sub = g.edge_subgraph(keep).copy()
            mm = Model()
            mm.edges = {e: dict(m.edges[e]) for e in keep}
            mm.nodes = list({x: None for e in keep for x in e})
            same_graph(sub, mm, ctx, what)
        elif kind == "merge":
            o = gs[op[2]]
            other = ms[op[2]].copy()
            g.add_nodes_from(list(o.nodes))
            # copies of the attribute dictionaries: a structure may be merged into itself
            g.add_edges_from([(u, v, dict(d)) for u, v, d in o.edges(data=True)])
            for x in other.nodes:
                m.add_node(x)
            for e, d in other.edges.items():
                readd = readd or e in m.edges
                m.add(e[0], e[1], d)
        elif kind == "compose":
            if op[2] != i:
                other = ms[op[2]]
                gs[i] = nx.compose(g, gs[op[2]])
                for x in other.nodes:
                    m.add_node(x)
                for e, d in other.edges.items():
                    m.add(e[0], e[1], d)
        elif kind == "new":
            o, form = op[2], op[3]
            ga = {"title": step, "origin_of_all": "x"} if step % 2 else {}
            if form == "graph":
                gs[i] = cls(g, **kw(o), **ga)
                for d in m.edges.values():
                    d["origin"] = o or "unknown"
            elif form == "edges":
                es = list(m.edges)
                gs[i] = cls(es, **kw(o), **ga)
                mm = Model()
                for u, v in es:
                    mm.add(u, v, {"origin": o or "unknown"})
                ms[i] = mm
            else:
                dod = {u: {v: {k: x for k, x in d.items() if k != "origin"} for (p, v), d in m.edges.items() if p == u} for u in m.nodes}
                gs[i] = cls(dod, **kw(o), **ga)
                for d in m.edges.values():
                    d["origin"] = o or "unknown"
            ctx.require(all(gs[i].graph.get(k) == v for k, v in ga.items()), lambda: "%s: graph attributes are %r, should include %r" % (what, gs[i].graph, ga))
        elif kind == "rev":
            gs[i] = g.reverse()
            m.edges = {(v, u): d for (u, v), d in m.edges.items()}
            ctx.require(type(gs[i]) is cls, "%s: the reversed structure is a %s" % (what, type(gs[i]).__name__))
        elif kind == "todir":
            gs[i] = g.to_directed()
            ctx.require(type(gs[i]) is cls, "%s: the directed copy is a %s" % (what, type(gs[i]).__name__))
        elif kind == "undir":
            u = g.to_undirected()
            ctx.require(type(u) is nx.Graph, "%s: the undirected copy is a %s" % (what, type(u).__name__))
            ctx.require({frozenset(e) for e in u.edges} == {frozenset(e) for e in m.edges} and set(u.nodes) == set(m.nodes),
                        "%s: the undirected copy has other edges" % what)
            for a, b, d in u.edges(data=True):
                ctx.require(d in [m.edges.get((a, b)), m.edges.get((b, a))] or (a, b) in m.edges and (b, a) in m.edges,
                            "%s: the undirected copy lost edge data" % what)
        elif kind == "path":
            nx.add_path(g, op[2])
            for u, v in zip(op[2], op[2][1:]):
                readd = readd or (u, v) in m.edges
                m.add(u, v, {"origin": "unknown"})
        elif kind == "thr":
            if m.edges and all(isinstance(d.get("weight"), (int, float)) for d in m.edges.values()):
                g.remove_edges_below_threshold(0.4)
                m.edges = {e: d for e, d in m.edges.items() if abs(d["weight"]) >= 0.4}
        for k in range(case["n"]):
            same_graph(gs[k], ms[k], ctx, what + " graph %d" % k)
    ctx.label("re-added an existing edge", readd)
    ctx.nontrivial(readd or len({o[0] for o in case["ops"]}) >= 4)


# ---------------------------------------------------------------- S02..S04
@st.composite
def weighted(draw, max_n=7, weights=None):
    pool = draw(st.sampled_from([NODES, list(range(9)), ["%s_lag%d" % (x, k) for x in "abc" for k in range(3)], ["n%d" % i for i in range(9)]]))
    n = draw(st.integers(1, min(max_n, len(pool))))
    nodes = list(draw(st.permutations(pool)))[:n]
    if weights is None:
        weights = st.one_of(st.sampled_from(WEIGHTS), st.floats(-3, 3), st.integers(-3, 3))
    pairs = [(a, b) for a in range(n) for b in range(n)]
    self_loops = draw(st.integers(0, 4)) == 0
    if not self_loops:
        pairs = [p for p in pairs if p[0] != p[1]]
    if draw(st.booleans()):
        cut = draw(st.integers(1, n))
        pairs = [p for p in pairs if (p[0] < cut) == (p[1] < cut)]
    es = draw(st.lists(st.sampled_from(pairs), unique=True, max_size=min(len(pairs), 18))) if pairs else []
    edges = [[nodes[a], nodes[b], draw(weights), draw(st.sampled_from(ORIGINS)), draw(attrs())] for a, b in es]
    return {"nodes": [[x, draw(st.sampled_from([{}, {}, {"col": "red"}]))] for x in nodes], "edges": edges}


@st.composite
def large(draw, weights=None):
    """Tens to hundreds of nodes; a pure function of a few drawn numbers, so that it is cheap to generate."""
    import random
    n, seed = draw(st.sampled_from([12, 25, 40, 70, 120, 250])), draw(st.integers(0, 10 ** 6))
    r = random.Random(seed)
    kind = draw(st.sampled_from(["sparse", "sparse", "dense", "dag", "cycle", "blocks", "chain"]))
    names = {"int": list(range(n)), "str": ["n%d" % i for i in range(n)], "lag": ["x%d_lag%d" % (i // 3, i % 3) for i in range(n)]}[draw(st.sampled_from(["int", "str", "lag"]))]
    r.shuffle(names)
    # random-label order of the sorted names as well as shuffled
    if draw(st.booleans()):
        names = sorted(names, key=str)
    pairs = set()
    m = {"sparse": n, "dense": min(4 * n, 400), "dag": 2 * n, "cycle": n // 2, "blocks": 2 * n, "chain": 0}[kind]
    for _ in range(m):
        a, b = r.randrange(n), r.randrange(n)
        if kind == "blocks" and a % 3 != b % 3:
            continue
        if a != b:
            pairs.add((min(a, b), max(a, b)) if kind == "dag" else (a, b))
    if kind in ("cycle", "chain"):
        pairs |= {(k, k + 1) for k in range(n - 1)}
    if kind == "cycle":
        pairs.add((n - 1, 0))
    pairs = sorted(pairs)
    r.shuffle(pairs)
    pool = draw(st.sampled_from([[0.1, 0.2, 0.3, 0.5, 1.0], [-1, 1, 2], None]))
    edges = []
    for a, b in pairs:
        w = r.choice(pool) if pool else r.uniform(-3, 3)
        edges.append([names[a], names[b], w, r.choice(ORIGINS), {"k": 1} if r.random() < 0.2 else {}])
    return {"nodes": [[x, {"col": "red"} if r.random() < 0.2 else {}] for x in names], "edges": edges}


@st.composite
def large_threshold_case(draw):
    c = draw(large())
    ws = sorted({abs(e[2]) for e in c["edges"]}) or [1]
    return {"g": c, "t": draw(st.sampled_from([0, 0.3, 0.5, 1, 2.9]) | st.sampled_from(ws)), "np": draw(st.booleans())}


@st.composite
def large_subgraph_case(draw):
    return {"g": draw(large()), "missing": draw(st.sampled_from(["zz", -1, ("q",)]))}


def build(case):
    g = SM()()
    for x, d in case["nodes"]:
        g.add_node(x, **d)
    for u, v, w, o, a in case["edges"]:
        a = {k: x for k, x in a.items() if k != "weight"}
        g.add_edge(u, v, origin=o, weight=w, **a)
    return g


def dump(g):
    return ({x: dict(d) for x, d in g.nodes(data=True)}, {(u, v): dict(d) for u, v, d in g.edges(data=True)})


def wkey(e):
    return abs(e[2])


@st.composite
def threshold_case(draw):
    c = draw(weighted())
    ws = [e[2] for e in c["edges"]]
    t = draw(st.one_of(st.sampled_from([0, 0.0, 0.3, 0.5, 1, 1e-12, -1, 1e10, float("inf")]), st.floats(0, 3),
                       st.sampled_from([abs(w) for w in ws] or [1])))
    return {"g": c, "t": t, "np": draw(st.booleans())}


def check_threshold(case, ctx):
    import numpy as np
    c, t = case["g"], case["t"]
    if case["np"]:
        for e in c["edges"]:
            e[2] = np.float64(e[2])
    g = build(c)
    before = dump(g)
    g.remove_edges_below_threshold(t)
    want = {e: d for e, d in before[1].items() if not abs(d["weight"]) < t}
    got = dump(g)
    ctx.require(got[1] == want, lambda: "threshold %r: kept %r, should keep %r" % (t, got[1], want))
    ctx.require(got[0] == before[0], "nodes were changed")
    g.remove_edges_below_threshold(t)
    ctx.require(dump(g) == got, "applying the same threshold again changed the structure")
    ctx.label("removed some, kept some", 0 < len(want) < len(before[1]))
    ctx.label("weight exactly at threshold", any(abs(e[2]) == t for e in c["edges"]))
    ctx.nontrivial(0 < len(want) < len(before[1]))


def check_dag(case, ctx):
    c = case
    g = build(c)
    before = dump(g)
    was_dag = nx.is_directed_acyclic_graph(nx.DiGraph(list(before[1])))
    g.threshold_till_dag()
    after = dump(g)
    plain = nx.DiGraph(list(after[1]))
    ctx.require(nx.is_directed_acyclic_graph(plain), "the result is not acyclic: %r" % list(after[1]))
    ctx.require(after[0] == before[0], "nodes were changed")
    ctx.require(all(before[1].get(e) == d for e, d in after[1].items()), "the data of surviving edges changed")
    removed = {e: abs(d["weight"]) for e, d in before[1].items() if e not in after[1]}
    if was_dag:
        ctx.require(not removed, "an acyclic structure lost edges %r" % list(removed))
    else:
        top = max(removed.values())
        ctx.require(all(abs(d["weight"]) >= top for d in after[1].values()), lambda: "removed %r although a weaker edge survives in %r" % (removed, after[1]))
        ok = False
        for e, w in removed.items():
            if w == top:
                p2 = nx.DiGraph(list(after[1]))
                p2.add_edge(*e)
                ok = ok or not nx.is_directed_acyclic_graph(p2)
        ctx.require(ok, lambda: "it went on after the graph was acyclic: removed %r, left %r" % (removed, list(after[1])))
    ctx.label("already acyclic", was_dag)
    ctx.label("removed %s" % min(len(removed), 5))
    ctx.nontrivial(not was_dag and len(after[1]) > 0)


@st.composite
def subgraph_case(draw):
    c = draw(weighted(max_n=8))
    if draw(st.booleans()):
        # several components with different edge counts
        names = ["c%d_%d" % (k, i) for k in range(3) for i in range(4)]
        nodes = [[x, {"col": "blue"} if draw(st.integers(0, 3)) == 0 else {}] for x in draw(st.permutations(names))]
        edges = []
        for k in range(3):
            pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
            for a, b in draw(st.lists(st.sampled_from(pairs), unique=True, max_size=6)):
                edges.append(["c%d_%d" % (k, a), "c%d_%d" % (k, b), draw(st.sampled_from(WEIGHTS)), draw(st.sampled_from(ORIGINS)), {}])
        c = {"nodes": nodes, "edges": list(draw(st.permutations(edges)))}
    return {"g": c, "missing": draw(st.sampled_from(["zz", 99, None, ("q",), "c9_9", -1, ""]))}


def check_subgraphs(case, ctx):
    from networkx.exception import NodeNotFound
    c = case["g"]
    cls = SM()
    g = build(c)
    g.graph["note"] = "kept"
    about = dict(g.graph)
    before = dump(g)
    # weak components, computed here
    comp = {x: {x} for x in before[0]}
    for u, v in before[1]:
        if comp[u] is not comp[v]:
            new = comp[u] | comp[v]
            for x in new:
                comp[x] = new
    counts = {}
    for u, v in before[1]:
        counts[id(comp[u])] = counts.get(id(comp[u]), 0) + 1

    def expect(sub, members, what):
        ctx.require(isinstance(sub, cls), "%s is a %s" % (what, type(sub).__name__))
        got = dump(sub)
        ctx.require(got[0] == {x: d for x, d in before[0].items() if x in members}, lambda: "%s has nodes %r, the component is %r" % (what, got[0], members))
        ctx.require(got[1] == {e: d for e, d in before[1].items() if e[0] in members}, lambda: "%s has edges %r" % (what, got[1]))
        for o in ORIGINS:
            ctx.require(set(sub.edges_with_origin(o)) == {e for e, d in got[1].items() if d["origin"] == o}, "%s: origins are wrong" % what)
        ctx.require(sub.graph == about, lambda: "%s has the graph attributes %r, expected %r" % (what, sub.graph, about))
        # an independent copy
        sub.graph["note"] = "changed"
        for u, v in list(sub.edges):
            sub[u][v]["weight"] = 12345
            sub[u][v]["origin"] = "expert"
        sub.add_edge("new node", "another", origin="learned")
        sub.remove_nodes_from([x for x in members][:1])
        ctx.require(dump(g) == before and g.graph == about, "changing %s changed the structure" % what)

    targets = list(before[0])
    if len(targets) > 30:
        targets = targets[::len(targets) // 12]
        ctx.label("large")
    for x in targets:
        expect(g.get_target_subgraph(x), comp[x], "the subgraph of %r" % (x,))
    big = g.get_largest_subgraph()
    if not before[1]:
        ctx.require(big is None, "the largest subgraph of a structure without edges is %r" % big)
    else:
        ctx.require(big is not None and big.number_of_nodes() > 0, "no largest subgraph")
        members = comp[list(big.nodes)[0]]
        ctx.require(counts.get(id(members), 0) == max(counts.values()), lambda: "the largest subgraph has %d edges, another component has %d" % (counts.get(id(members), 0), max(counts.values())))
        expect(big, members, "the largest subgraph")
    if case["missing"] not in before[0]:
        expect_raises(ctx, (NodeNotFound,), lambda: g.get_target_subgraph(case["missing"]), "subgraph of a missing node %r" % (case["missing"],))
    ctx.require(dump(g) == before, "the structure was changed")
    k = len({id(s) for s in comp.values()})
    ctx.label("components: %s" % min(k, 5))
    ctx.label("components with different numbers of edges", len(set(counts.values())) > 1)
    ctx.nontrivial(k > 1 and bool(before[1]))


def S01():
    return Prop("S01", [Leg("editing histories", history, check_history, quick=6000)], "")


def S02():
    return Prop("S02", [Leg("threshold", threshold_case, check_threshold, quick=8000), Leg("large structures", large_threshold_case, check_threshold, quick=800)], "")


def S03():
    W = st.one_of(st.sampled_from([1, -1, 2, -2, 0.5, -0.5, 3, -4, 0]), st.floats(-3, 3))
    return Prop("S03", [Leg("threshold until acyclic", lambda: weighted(max_n=7, weights=W), check_dag, quick=9000), Leg("large structures", large, check_dag, quick=500)], "")


def S04():
    return Prop("S04", [Leg("subgraphs", subgraph_case, check_subgraphs, quick=4000), Leg("large structures", large_subgraph_case, check_subgraphs, quick=600)], "")


PROPS = {"S01": S01, "S02": S02, "S03": S03, "S04": S04}
