"""B06, B07, B08: junction tree validity, triangulation, propagation."""
from itertools import combinations

import networkx as nx
from hypothesis import strategies as st

from .. import nets
from ..core import Leg, Prop


def fam(c):
    return [set([c["v"][q] for q in c["p"][i]] + [c["v"][i]]) for i in range(len(c["v"]))]


# graph-shaped cases: the tables do not matter, so make them trivial and the graphs big
@st.composite
def dag_case(draw, max_n=16, big=False):
    shape = draw(st.sampled_from(nets.SHAPES + ("loops", "loops", "grid", "layers", "window")))
    hi = 9 if shape in ("star_in", "dense") else (30 if big else max_n)
    c = draw(nets.nets(max_n=hi, min_n=6 if big else draw(st.sampled_from([5, 5, 4, 6, 1])), max_states=2, joint_cap=0, shapes=(shape,),
                       max_parents=draw(st.sampled_from([2, 3, 4, 6])), cpt_cap=128, binary_only=True))
    c["w"] = [[[1] * len(c["d"][i])] * len(rows) for i, rows in enumerate(c["w"])]
    return {"net": c, "prio": draw(st.integers(0, 3)), "pseed": draw(st.integers(0, 10 ** 6))}


def priority(case):
    """Alternative elimination priorities: any total preorder must give a valid result."""
    import hashlib
    k = case["prio"]
    if k in (0, 1):
        return None
    if k == 2:
        return lambda node: [len(node.neighbours), 2]

    def f(node):
        h = hashlib.blake2b(("%s|%d" % (node.name, case["pseed"])).encode(), digest_size=4).digest()
        return [int.from_bytes(h, "big"), 2]
    return f


def tree_facts(jt, c, ctx):
    cl = list(jt.clique_nodes)
    ss = list(jt.sepset_nodes)
    ctx.require(len(set(map(id, jt.nodes))) == len(jt.nodes), "the tree lists a node twice")
    ctx.require(len(cl) + len(ss) == len(jt.nodes), "the tree contains nodes that are neither clusters nor separators")
    ctx.require(len(ss) == len(cl) - 1, "%d clusters but %d separators" % (len(cl), len(ss)))
    ids = {id(x) for x in jt.nodes}
    g = nx.Graph()
    g.add_nodes_from(range(len(cl)))
    pos = {id(x): k for k, x in enumerate(cl)}
    names = [frozenset(x.variable_names) for x in cl]
    for x in cl:
        for y in x.neighbours:
            ctx.require(id(y) in ids and id(y) not in pos, "a cluster is joined to something that is not a separator of the tree")
            ctx.require(sum(z is x for z in y.neighbours) == 1, "separator %r does not list its cluster %r once" % (y, x))
    for s in ss:
        ctx.require(len(s.neighbours) == 2, "separator %r has %d neighbours" % (s, len(s.neighbours)))
        a, b = s.neighbours
        ctx.require(id(a) in pos and id(b) in pos and a is not b, "separator %r does not join two clusters of the tree" % s)
        for x in (a, b):
            ctx.require(sum(z is s for z in x.neighbours) == 1, "cluster %r does not list its separator %r once" % (x, s))
        va, vb = names[pos[id(a)]], names[pos[id(b)]]
        vs = list(s.variable_names)
        ctx.require(len(vs) == len(set(vs)) and set(vs) == va & vb, "separator between %r and %r holds %r" % (sorted(va), sorted(vb), vs))
        g.add_edge(pos[id(a)], pos[id(b)])
    ctx.require(nx.number_of_nodes(g) > 0 and nx.is_connected(g) and g.number_of_edges() == len(cl) - 1, "the clusters do not form one tree")
    return cl, ss, g, names


def check_tree(case, ctx):
    from causalnex.ebaybbn import build_join_tree
    c = case["net"]
    nets.classify(c, ctx)
    b = nets.build(c)
    pf = priority(case)
    jt = build_join_tree(b) if pf else b.build_join_tree()
    if pf:
        jt = build_join_tree(b, pf)
    cl, ss, g, names = tree_facts(jt, c, ctx)
    allv = set(c["v"])
    for x in cl:
        vs = list(x.variable_names)
        ctx.require(len(vs) == len(set(vs)) and set(vs) <= allv, "cluster %r holds unknown or repeated variables" % vs)
    for a, b2 in combinations(names, 2):
        ctx.require(not (a <= b2 or b2 <= a), "cluster %r contains cluster %r" % (sorted(a), sorted(b2)))
    for f in fam(c):
        ctx.require(any(f <= n for n in names), "no cluster contains the family %r" % sorted(f))
    for v in allv:
        where = [k for k, n in enumerate(names) if v in n]
        ctx.require(nx.is_connected(g.subgraph(where)), "the clusters containing %r are not connected in the tree" % v)
    # each conditional table is put in exactly one cluster, which covers it
    asg = jt.assign_clusters(b)
    placed = {}
    for clique, nodes in asg.items():
        for nd in nodes:
            ctx.require(nd.name not in placed, "the table of %r is assigned twice" % nd.name)
            placed[nd.name] = clique
    ctx.require(set(placed) == set(c["fn"]), "tables assigned: %r, network has %r" % (sorted(placed), sorted(c["fn"])))
    for i, f in enumerate(fam(c)):
        ctx.require(f <= set(placed[c["fn"][i]].variable_names), "the table over %r is assigned to cluster %r" % (
            sorted(f), placed[c["fn"][i]].variable_names))
    ctx.label("clusters: %s" % (len(cl) if len(cl) < 6 else "6+"))
    ctx.label("branching tree", any(d > 2 for _, d in g.degree()))
    ctx.label("largest cluster: %d" % max(map(len, names)))
    ctx.label("own elimination priority", pf is not None)
    ctx.nontrivial(len(cl) >= 3)


def neighbour_graph(nodes, ctx, what):
    g = nx.Graph()
    names = [n.name for n in nodes]
    ctx.require(len(set(names)) == len(names), "%s: a node appears twice" % what)
    g.add_nodes_from(names)
    own = {n.name: n for n in nodes}
    for n in nodes:
        ctx.require(len(set(map(id, n.neighbours))) == len(n.neighbours), "%s: %r lists a neighbour twice" % (what, n.name))
        for m in n.neighbours:
            ctx.require(own.get(m.name) is m, "%s: %r has a neighbour outside the graph" % (what, n.name))
            ctx.require(m is not n, "%s: %r is its own neighbour" % (what, n.name))
            ctx.require(any(k is n for k in m.neighbours), "%s: %r lists %r but not the reverse" % (what, n.name, m.name))
            g.add_edge(n.name, m.name)
    return g


def edges(g):
    return {frozenset(e) for e in g.edges}


def check_triangulation(case, ctx):
    import causalnex.ebaybbn as eb
    c = case["net"]
    nets.classify(c, ctx)
    b = nets.build(c)
    fn = c["fn"]
    from .bbn_misc import snapshot
    before = snapshot(b)
    gu = eb.make_undirected_copy(b)
    skel = {frozenset((fn[q], fn[i])) for i in range(len(fn)) for q in c["p"][i]}
    g0 = neighbour_graph(gu.nodes, ctx, "undirected copy")
    ctx.require(set(g0) == set(fn) and edges(g0) == skel, "the undirected copy is not the skeleton of the network")
    gm = eb.make_moralized_copy(gu, b)
    want = set(skel)
    for i in range(len(fn)):
        for p, q in combinations(c["p"][i], 2):
            want.add(frozenset((fn[p], fn[q])))
    g1 = neighbour_graph(gm.nodes, ctx, "moral graph")
    ctx.require(set(g1) == set(fn) and edges(g1) == want, lambda: "moral graph: missing %r, extra %r" % (
        [sorted(e) for e in want - edges(g1)], [sorted(e) for e in edges(g1) - want]))
    ctx.require(edges(neighbour_graph(gu.nodes, ctx, "undirected copy")) == skel, "moralising changed its input graph")
    pf = priority(case)
    cliques, order = eb.triangulate(gm, pf) if pf else eb.triangulate(gm)
    g2 = neighbour_graph(gm.nodes, ctx, "triangulated graph")
    ctx.require(set(g2) == set(fn) and edges(g2) >= want, "triangulation lost nodes or edges")
    ctx.require(g2.number_of_nodes() == 0 or nx.is_chordal(g2), "the triangulated graph is not chordal")
    ctx.require(sorted(order) == sorted(fn), "the elimination order %r does not visit every variable once" % (order,))
    # the order is perfect for the triangulated graph
    rest = set(fn)
    for v in order:
        rest.discard(v)
        later = [u for u in g2[v] if u in rest]
        ctx.require(all(g2.has_edge(x, y) for x, y in combinations(later, 2)), "the elimination order is not perfect at %r" % v)
    got = sorted(sorted(n.name for n in q.nodes) for q in cliques)
    ctx.require(got == sorted(sorted(q) for q in nx.find_cliques(g2)), lambda: "cliques returned %r, maximal cliques %r" % (
        got, sorted(sorted(q) for q in nx.find_cliques(g2))))
    ctx.require(snapshot(b) == before, "the network was altered")
    ctx.label("fill edges: %s" % (min(len(edges(g2)) - len(want), 5)))
    ctx.label("already chordal", nx.is_chordal(g1) if len(fn) > 0 else True)
    ctx.label("own elimination priority", pf is not None)
    ctx.nontrivial(len(want) > len(skel) or len(edges(g2)) > len(want))


# ---------------------------------------------------------------- B08
@st.composite
def prop_case(draw):
    c = draw(nets.nets(max_n=6, joint_cap=700, max_states=3))
    return {"net": c, "ev": nets.evidence_for(draw, c) if draw(st.integers(0, 3)) else [], "starts": draw(st.lists(st.integers(0, 6), min_size=1, max_size=3)), "default": draw(st.booleans())}


def check_propagation(case, ctx):
    import numpy as np
    c, ev = case["net"], case["ev"]
    nets.classify(c, ctx)
    b = nets.build(c)
    kw = nets.kwargs(c, ev)
    j = nets.joint(c)
    for i, s in ev:
        keep = np.zeros(j.shape[i])
        keep[s] = 1
        j = j * keep.reshape([-1 if a == i else 1 for a in range(j.ndim)])
    pe = float(j.sum())
    if 0 < pe < 1e-250:
        ctx.discard()
    pos = {v: i for i, v in enumerate(c["v"])}
    idx = [{lab: k for k, lab in enumerate(d)} for d in c["d"]]
    starts = [None] if case["default"] else []
    starts += case["starts"]
    many = 0
    for s in starts:
        jt = b.build_join_tree()
        jt.initialize_potentials(jt.assign_clusters(b), b, kw)
        cl = sorted(jt.clique_nodes, key=lambda x: x.variable_names)
        many = max(many, len(cl))
        if s is None:
            jt.propagate()
        else:
            jt.propagate(starting_clique=cl[s % len(cl)])
        for node in jt.nodes:
            vs = list(node.variable_names)
            axes = [pos[v] for v in vs]
            marg = j.sum(axis=tuple(a for a in range(j.ndim) if a not in axes))
            order = sorted(axes)
            size = 1
            for v in vs:
                size *= len(c["d"][pos[v]])
            ctx.require(len(node.potential_tt) == size, "%r has %d entries, its variables have %d assignments" % (node, len(node.potential_tt), size))
            for key, val in node.potential_tt.items():
                a = dict(key)
                ctx.require(set(a) == set(vs), "%r has a table entry over %r" % (node, sorted(a)))
                x = float(marg[tuple(idx[k][a[c["v"][k]]] for k in order)])
                # the tables carry joint masses, so compare relative to the evidence mass
                ctx.require(abs(val - x) <= 1e-9 * max(pe, 1e-30) + 1e-300, lambda: "start %r: table of %r at %r is %r, the joint with the evidence %r gives %r" % (
                    s, node, a, val, kw, x))
    ctx.label("clusters: %s" % (many if many < 6 else "6+"))
    ctx.label("with evidence", bool(ev))
    ctx.label("impossible evidence", pe == 0)
    ctx.nontrivial(many >= 2)


def B06():
    return Prop("B06", [
        Leg("small graphs", lambda: dag_case(max_n=10), check_tree, quick=5000,
            examples=[{"net": c, "prio": 0, "pseed": 0} for c in nets.CLASSICS]),
        Leg("large graphs", lambda: dag_case(big=True), check_tree, quick=900),
    ], "")


def B07():
    return Prop("B07", [
        Leg("small graphs", lambda: dag_case(max_n=10), check_triangulation, quick=6000,
            examples=[{"net": c, "prio": 0, "pseed": 0} for c in nets.CLASSICS]),
        Leg("large graphs", lambda: dag_case(big=True), check_triangulation, quick=1200),
    ], "")


def B08():
    return Prop("B08", [
        Leg("cluster and separator tables", prop_case, check_propagation, quick=4500,
            examples=[{"net": c, "ev": [[0, 0]], "starts": [0, 1, 2, 3], "default": True} for c in nets.CLASSICS]),
    ], "")


PROPS = {"B06": B06, "B07": B07, "B08": B08}
