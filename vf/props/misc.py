"""M01, M02 (variable/feature mapping), D01, D02 (discretiser), P01, P02 (plots)."""
import copy
import re

from hypothesis import strategies as st

from .. import mods
from ..core import Discard, Leg, Prop, expect_raises

# ---------------------------------------------------------------- M01
VARS = ["a", "b", "c", "a_b", "a_0x", "count", "binary", "x_1", "1", 0, 1, 2, 10, ("t", 1), ("u",), 2.5, "categorical", "", "ab", "a_1"]


@st.composite
def schema_case(draw):
    vs = draw(st.lists(st.sampled_from(VARS), unique_by=lambda x: (type(x).__name__, repr(x)), min_size=0, max_size=9))
    schema, used = [], set()
    for v in vs:
        t = draw(st.sampled_from(["binary", "continuous", "count", "categorical", "categorical"]))
        if t == "categorical":
            k = draw(st.sampled_from([1, 2, 3, 4, 5, 9, 10, 11, 12, 23]))
            names = {"{}_{}".format(v, i) for i in range(k)}
            t = "categorical:%d" % k
        else:
            names = {v}
        # two variables claiming the same feature name are outside the domain
        if names & used or v in used or v in names and t.startswith("cat"):
            continue
        if any(isinstance(u, str) and u in names for u, _ in schema) or any(v == u for u, _ in schema):
            continue
        used |= names
        schema.append([v, t])
    for k in range(draw(st.sampled_from([0, 0, 0, 0, 6, 25]))):     # many variables
        schema.insert((k * 7) % (len(schema) + 1), ["v%d" % k, ["binary", "categorical:3", "continuous", "count", "categorical:12"][(k * k + len(vs)) % 5]])
    n = len(schema)
    return {"schema": schema, "lists": draw(st.lists(st.lists(st.integers(0, max(n - 1, 0)), max_size=5), max_size=3)),
            "missing": draw(st.sampled_from(["zz", 99, ("q",), None, -1])), "badtype": draw(st.sampled_from(["cat", "", "Binary", "categorical:3", "x"]))}


def check_mapper(case, ctx):
    m = mods.get("structure.categorical_variable_mapper")
    schema = dict((k, v) for k, v in case["schema"])
    before = repr(schema)
    mp = m.VariableFeatureMapper(schema)
    ctx.require(repr(schema) == before, "the schema was changed")
    vs = list(schema)
    size = {v: (int(t.split(":")[1]) if t.startswith("categorical") else 1) for v, t in schema.items()}
    kind = {v: t.split(":")[0] for v, t in schema.items()}
    total = sum(size.values())
    ctx.require(mp.n_variables == len(vs) and len(mp.variable_list) == len(vs) and set(mp.variable_list) == set(vs),
                lambda: "variables are %r, the schema has %r" % (mp.variable_list, vs))
    ctx.require(mp.n_features == total, "%d features, the schema implies %d" % (mp.n_features, total))
    names = list(mp.get_feature_names())
    ctx.require(len(names) == total and len(set(names)) == total, "feature names %r are not %d distinct names" % (names, total))
    seen = []
    for v in vs:
        ix = mp.get_indices(v)
        ctx.require(isinstance(ix, list) and len(ix) == size[v], "get_indices(%r) is %r, expected %d positions" % (v, ix, size[v]))
        seen += ix
        sq = mp.get_indices(v, squeeze=True)
        if kind[v] == "categorical":
            ctx.require(list(sq) == ix, "get_indices(%r, squeeze=True) is %r" % (v, sq))
            fn = mp.get_feature_names(v)
            ctx.require(list(fn) == [names[i] for i in ix], "get_feature_names(%r) is %r, its positions hold %r" % (v, fn, [names[i] for i in ix]))
            ctx.require(list(fn) == ["{}_{}".format(v, i) for i in range(size[v])], "features of %r are called %r" % (v, fn))
            if v not in names:
                expect_raises(ctx, (ValueError,), lambda: mp.get_feature_index(v), "get_feature_index of the categorical variable %r" % (v,))
        else:
            ctx.require(sq == ix[0], "get_indices(%r, squeeze=True) is %r, position is %r" % (v, sq, ix))
            ctx.require(names[ix[0]] == v, "position %d of %r holds %r" % (ix[0], v, names[ix[0]]))
            ctx.require(mp.get_feature_names(v) == v, "get_feature_names(%r) is %r" % (v, mp.get_feature_names(v)))
        for t in ("binary", "continuous", "count", "categorical"):
            ctx.require(bool(mp.is_var_of_type(v, t)) == (kind[v] == t), "is_var_of_type(%r, %r) is %r" % (v, t, mp.is_var_of_type(v, t)))
    ctx.require(sorted(seen) == list(range(total)), "the positions of the variables %r do not partition 0..%d" % (sorted(seen), total - 1))
    for i, f in enumerate(names):
        ctx.require(mp.get_feature_index(f) == i, "get_feature_index(%r) is %r, it is at position %d" % (f, mp.get_feature_index(f), i))
    for t in ("binary", "continuous", "count", "categorical"):
        got = mp.get_var_of_type(t)
        ctx.require(len(got) == len(set(got)) and set(got) == {v for v in vs if kind[v] == t}, "get_var_of_type(%r) is %r" % (t, got))
    cats = mp.get_categorical_indices()
    ctx.require(sorted(cats) == sorted(mp.get_indices(v) for v in vs if kind[v] == "categorical"), "get_categorical_indices() is %r" % cats)
    for l in case["lists"]:
        pick = [vs[i] for i in l if i < len(vs)]
        want = [i for v in pick for i in mp.get_indices(v)]
        ctx.require(list(mp.get_indices(list(pick))) == want, "get_indices(%r) is %r, expected %r" % (pick, mp.get_indices(list(pick)), want))
        ctx.require(list(mp.get_indices(iter(pick))) == want, "get_indices of an iterator over %r is %r, expected %r" % (pick, mp.get_indices(iter(pick)), want))
        want_s = sorted(i for v in set(pick) for i in mp.get_indices(v))
        ctx.require(sorted(mp.get_indices(set(pick))) == want_s, "get_indices of the set %r is wrong" % pick)
    if case["missing"] not in schema and case["missing"] not in names:
        expect_raises(ctx, (ValueError,), lambda: mp.get_indices(case["missing"]), "get_indices of the unknown %r" % (case["missing"],))
    expect_raises(ctx, (ValueError,), lambda: mp.get_var_of_type(case["badtype"]), "get_var_of_type(%r)" % case["badtype"])
    ctx.label("variables: %d" % len(vs))
    ctx.label("several categorical variables", sum(k == "categorical" for k in kind.values()) > 1)
    ctx.label("cardinality above ten", any(s > 10 for s in size.values()))
    ctx.nontrivial(len(set(kind.values())) > 1 and "categorical" in kind.values())


# ---------------------------------------------------------------- M02
GOOD = ["continuous", "binary", "count", "categorical:1", "categorical:2", "categorical:10", "categorical:305"]
BAD = ["unknown", "", "Binary", "categorical", "categorical:", "categorical:0", "categorical:03", "categorical:-2", "categorical:x",
       "cat:3", "notbinary", "binary:2", "categorical:3x", "categorical:1.5", "binary,count", "xcategorical:3", "counts", "numeric", "categorical 3"]


@st.composite
def validate_case(draw):
    nodes = draw(st.lists(st.sampled_from(["a", "b", "c", 0, 1, ("t",), "d"]), unique=True, max_size=6))
    entries = []
    for v in nodes + draw(st.lists(st.sampled_from(["other", 77, "e"]), unique=True, max_size=2)):
        r = draw(st.integers(0, 9))
        if r < 3:
            continue
        entries.append([v, draw(st.sampled_from(GOOD)) if r < 9 else draw(st.sampled_from(BAD))])
    d = draw(st.sampled_from([None, None] + GOOD + BAD[:4]))
    return {"nodes": nodes, "form": draw(st.sampled_from(["list", "set", "view"])), "schema": draw(st.permutations(entries)), "default": d,
            "none": draw(st.booleans())}


def check_validate(case, ctx):
    import networkx as nx
    m = mods.get("structure.categorical_variable_mapper")
    nodes = case["nodes"]
    if case["form"] == "set":
        arg = set(nodes)
    elif case["form"] == "view":
        g = nx.DiGraph()
        g.add_nodes_from(nodes)
        arg = g.nodes
    else:
        arg = list(nodes)
    schema = dict((k, v) for k, v in case["schema"])
    sarg = None if (not schema and case["none"]) else schema
    before = repr(sarg)
    default = case["default"] if case["default"] is not None else "continuous"
    kw = {} if case["default"] is None else {"default_type": case["default"]}
    want = {v: schema.get(v, default) for v in nodes}
    bad = [v for v, t in want.items() if t not in GOOD]
    unsupported_default = default in BAD and default not in ("categorical", "categorical:")
    if default in ("categorical", "categorical:") and not bad:
        raise Discard()     # an incomplete default that nobody needs: unspecified

    def call():
        return m.validate_schema(nodes=arg, schema=sarg, **kw)
    what = "validate_schema(nodes=%r, schema=%r, default=%r)" % (nodes, schema, default)
    if bad or unsupported_default:
        expect_raises(ctx, (ValueError,), call, what)
    else:
        got = call()
        ctx.require(isinstance(got, dict) and got == want and len(got) == len(nodes), "%s returned %r, expected %r" % (what, got, want))
        ctx.require(got is not sarg, "%s returned the caller's own dictionary" % what)
    ctx.require(repr(sarg) == before, "%s changed the caller's schema" % what)
    ctx.label("rejected", bool(bad) or unsupported_default)
    ctx.label("entries for unknown nodes", any(k not in nodes for k in schema))
    ctx.nontrivial(len(nodes) > 1)


# ---------------------------------------------------------------- D01
NUM = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 1e-9, 10.0, 100.0, 3.0]), st.floats(-50, 50), st.integers(-5, 12))


def arr(xs, form):
    import numpy as np
    if form == "int":
        return np.array([int(x) for x in xs], dtype=int)
    if form == "f32":
        return np.array(xs, dtype=np.float32)
    if form == "2d" and len(xs) % 2 == 0:
        return np.array(xs, dtype=float).reshape(-1, 2)
    if form == "view":
        return np.array([v for x in xs for v in (x, 99.0)], dtype=float)[::2]
    return np.array(xs, dtype=float)


@st.composite
def disc_case(draw):
    method = draw(st.sampled_from(["uniform", "quantile", "outlier", "percentiles", "fixed", "uniform", "quantile"]))
    c = {"method": method, "train": draw(st.lists(NUM, min_size=1, max_size=25)), "first": draw(st.lists(NUM, min_size=1, max_size=6)),
         "data": draw(st.lists(NUM, min_size=0, max_size=25)), "form": draw(st.sampled_from(["f64", "f64", "int", "2d", "view"])),
         "refit": draw(st.booleans()), "ft": draw(st.booleans()), "exact": draw(st.booleans()), "mono": draw(st.booleans()), "p": None}
    if method in ("uniform", "quantile"):
        c["p"] = draw(st.integers(1, 9) | st.integers(1, 60))
    elif method == "outlier":
        c["p"] = draw(st.one_of(st.sampled_from([0, 0.1, 0.25, 0.05, 0.49]), st.floats(0, 0.499)))
    elif method == "percentiles":
        c["p"] = sorted(draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.75, 0, 1]), st.floats(0, 1)), max_size=6)))
    else:
        c["p"] = sorted(draw(st.lists(NUM, max_size=7)))
    # large samples are described by a seed
    c["big"] = draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from([30, 101, 257, 1003, 2600]), st.integers(0, 10 ** 6), st.sampled_from(["normal", "ints", "heavy", "late"])).map(list)))
    return c


def big_sample(spec):
    import numpy as np
    n, seed, kind = spec
    r = np.random.RandomState(seed)
    if kind == "normal":
        return r.randn(n).tolist()
    if kind == "ints":
        return r.randint(-20, 90, n).astype(float).tolist()
    if kind == "heavy":
        return np.round(np.exp(3 * r.randn(n)), 3).tolist()
    x = np.zeros(n)     # a single large value somewhere
    x[r.randint(n)] = 64.0
    return x.tolist()


def lin_quantile(xs, q):
    """The linearly interpolated q-quantile of sorted values."""
    n = len(xs)
    h = (n - 1) * q
    lo = int(h // 1)
    lo = min(max(lo, 0), n - 1)
    hi = min(lo + 1, n - 1)
    return xs[lo] + (h - lo) * (xs[hi] - xs[lo])


def make_disc(case):
    D = mods.get("discretiser.discretiser").Discretiser
    p = case["p"]
    key = {"uniform": "num_buckets", "quantile": "num_buckets", "outlier": "outlier_percentile", "percentiles": "percentile_split_points",
           "fixed": "numeric_split_points"}[case["method"]]
    return D(method=case["method"], **{key: copy.deepcopy(p)})


def check_disc(case, ctx):
    import numpy as np
    meth = case["method"]
    d = make_disc(case)
    if case.get("big"):
        case = dict(case, train=big_sample(case["big"]))
        ctx.label("large sample")
    train = arr(case["train"], case["form"])
    data = arr(case["data"], case["form"] if case["form"] != "2d" or len(case["data"]) % 2 == 0 else "f64")
    tb, db = train.copy(), data.copy()
    out_t = None
    if meth != "fixed":
        if case["refit"]:
            d.fit(arr(case["first"], "f64"))
        if case["ft"]:
            out_t = d.fit_transform(train)
        else:
            r = d.fit(train)
            ctx.require(r is d, "fit() returned %r" % type(r).__name__)
    else:
        expect_raises(ctx, (RuntimeError,), lambda: d.fit(train), "fitting a fixed discretiser")
    ctx.require(np.array_equal(train, tb) and train.dtype == tb.dtype, "fitting changed the training data %r into %r" % (tb.tolist(), train.tolist()))
    sp = [float(x) for x in d.numeric_split_points]
    xs = sorted(float(x) for x in np.ravel(tb))
    scale = max(1.0, abs(xs[0]), abs(xs[-1]))
    if meth == "uniform":
        want = [xs[0] + (xs[-1] - xs[0]) * k / case["p"] for k in range(1, case["p"])]
    elif meth == "quantile":
        want = [lin_quantile(xs, k / case["p"]) for k in range(1, case["p"])]
    elif meth == "outlier":
        want = [lin_quantile(xs, case["p"]), lin_quantile(xs, 1 - case["p"])]
    elif meth == "percentiles":
        want = [lin_quantile(xs, q) for q in case["p"]]
    else:
        want = [float(x) for x in case["p"]]
    # the exact position of a quantile can flip to the next data point when (n-1)*q is within rounding of an integer: interpolation is continuous
    ctx.require(len(sp) == len(want) and all(abs(a - b) <= 1e-9 * scale for a, b in zip(sp, want)),
                lambda: "%s(%r) learned split points %r from %r, expected %r" % (meth, case["p"], sp, xs, want))
    if case["exact"] and sp:
        # probe exactly at the split points and right next to them
        pts = []
        for s in sp:
            pts += [s, np.nextafter(s, -1e300), np.nextafter(s, 1e300)]
        data = np.array(pts)
        db = data.copy()
    if case["mono"]:
        data = np.sort(np.ravel(data))
        db = data.copy()
    before = list(d.numeric_split_points)
    out = d.transform(data)
    ctx.require(np.array_equal(data, db), "transforming changed the data")
    ctx.require(list(d.numeric_split_points) == before, "transforming changed the split points")
    out = np.asarray(out)
    ctx.require(out.shape == data.shape, "output has shape %r, input %r" % (out.shape, data.shape))
    ctx.require(out.size == 0 or np.issubdtype(out.dtype, np.integer), "output type is %s" % out.dtype)
    for x, y in zip(np.ravel(db).tolist(), np.ravel(out).tolist()):
        w = sum(s <= x for s in sp)
        ctx.require(y == w, lambda: "value %r with split points %r went to bucket %r, expected %r" % (x, sp, y, w))
    if out_t is not None:
        ctx.require([int(v) for v in np.ravel(out_t)] == [sum(s <= x for s in sp) for x in np.ravel(tb).tolist()], "fit_transform disagrees with the split points")
    if case["refit"] and meth != "fixed":
        d2 = make_disc(case)
        d2.fit(train)
        ctx.require([float(x) for x in d2.numeric_split_points] == sp, "split points depend on an earlier fit: %r, fresh %r" % (sp, list(d2.numeric_split_points)))
    ctx.label(meth)
    ctx.label("ties in training data", len(set(xs)) < len(xs))
    ctx.nontrivial(len(sp) >= 2 and data.size > 1)


# ---------------------------------------------------------------- D02
@st.composite
def disc_args(draw):
    c = {"method": draw(st.sampled_from(["uniform", "quantile", "outlier", "fixed", "percentiles", "Uniform", "", "bogus", "percentile"]))}
    p = lambda: draw(st.integers(0, 2)) > 0  # noqa
    req = {"uniform": "num_buckets", "quantile": "num_buckets", "outlier": "outlier_percentile", "fixed": "numeric_split_points", "percentiles": "percentile_split_points"}
    need = req.get(c["method"])
    if need == "num_buckets" and draw(st.integers(0, 4)) or not p():
        c["num_buckets"] = draw(st.integers(1, 8))
    if need == "outlier_percentile" and draw(st.integers(0, 4)) or draw(st.integers(0, 4)) == 0:
        c["outlier_percentile"] = draw(st.one_of(st.sampled_from([0, 0.0, 0.1, 0.25, 0.49999, 0.5, -0.1, 0.7, 1, -1e-9]), st.floats(-0.2, 0.8)))
    if need == "numeric_split_points" and draw(st.integers(0, 4)) or draw(st.integers(0, 4)) == 0:
        l = draw(st.lists(NUM, max_size=5))
        c["numeric_split_points"] = sorted(l) if draw(st.booleans()) else l
    if need == "percentile_split_points" and draw(st.integers(0, 4)) or draw(st.integers(0, 4)) == 0:
        l = draw(st.lists(st.one_of(st.sampled_from([0, 1, 0.5, 0.1, 1.1, -0.1, 1.0000001]), st.floats(0, 1)), max_size=4))
        c["percentile_split_points"] = sorted(l) if draw(st.integers(0, 2)) else l
    return c


def check_disc_args(case, ctx):
    D = mods.get("discretiser.discretiser").Discretiser
    req = {"uniform": "num_buckets", "quantile": "num_buckets", "outlier": "outlier_percentile", "fixed": "numeric_split_points", "percentiles": "percentile_split_points"}
    m = case["method"]
    ok = m in req and case.get(req[m]) is not None
    op = case.get("outlier_percentile")
    ok = ok and (op is None or 0 <= op < 0.5)
    ns, ps = case.get("numeric_split_points"), case.get("percentile_split_points")
    ok = ok and (ns is None or all(a <= b for a, b in zip(ns, ns[1:])))
    ok = ok and (ps is None or (all(a <= b for a, b in zip(ps, ps[1:])) and all(0 <= x <= 1 for x in ps)))
    args = copy.deepcopy(case)
    if ok:
        d = D(**args)
        ctx.require(args == case, "the arguments were changed")
        if m == "fixed":
            import numpy as np
            expect_raises(ctx, (RuntimeError,), lambda: d.fit(np.array([1.0, 2.0])), "fitting a fixed discretiser")
    else:
        expect_raises(ctx, (ValueError,), lambda: D(**args), "Discretiser(%r)" % case)
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial(m in req and len(case) > 1)


# ---------------------------------------------------------------- P01
ATTR_N = st.dictionaries(st.sampled_from(["color", "fillcolor", "shape", "width", "fontsize", "style", "label", "penwidth", "xlabel", "tooltip"]),
                         st.sampled_from(["red", "#00ff00", "box", 0.5, 3, "", True, "n"]), max_size=4)
ATTR_E = st.dictionaries(st.sampled_from(["color", "arrowhead", "penwidth", "arrowsize", "label", "style", "weight"]),
                         st.sampled_from(["blue", "none", 2, 0.1, "dashed", ""]), max_size=4)
ATTR_G = st.dictionaries(st.sampled_from(["bgcolor", "scale", "dpi", "splines", "pad", "rankdir", "label", "fontname"]), st.sampled_from(["white", 1.0, 72, False, "LR"]), max_size=4)


@st.composite
def plot_case(draw):
    nodes = draw(st.lists(st.sampled_from(["a", "b", "c", "x y", "n1", 7, 8]), unique=True, min_size=1, max_size=5))
    pairs = [(u, v) for u in nodes for v in nodes if u != v or draw(st.integers(0, 9)) == 0]
    es = draw(st.lists(st.sampled_from(pairs), unique=True, max_size=6)) if pairs else []
    opt = lambda s: draw(st.one_of(st.none(), s, s))  # noqa
    na = {n: draw(ATTR_N) for n in nodes if draw(st.booleans())} if draw(st.integers(0, 3)) else None
    ea = {e: draw(ATTR_E) for e in es if draw(st.booleans())} if draw(st.integers(0, 3)) else None
    return {"nodes": [[n, draw(st.sampled_from([{}, {}, {"color": "own"}, {"note": "keep"}, {"label": "own"}, {"label": "", "shape": "own", "width": 9}]))] for n in nodes],
            "edges": [[u, v, draw(st.sampled_from([{}, {"weight": 2.0}, {"color": "own"}, {"penwidth": 9, "label": "own"}])), draw(st.sampled_from(["unknown", "learned", "expert"]))] for u, v in es],
            "an": opt(ATTR_N), "ae": opt(ATTR_E), "na": na, "ea": ea, "ga": opt(ATTR_G), "prog": draw(st.sampled_from([None, "dot", "neato", "circo"])),
            "twice": draw(st.booleans())}


def check_plot(case, ctx):
    plots = mods.get("plots.plots")
    SM = mods.get("structure.structuremodel").StructureModel
    styles0 = copy.deepcopy((plots.GRAPH_STYLE, tuple(plots.NODE_STYLE), tuple(plots.EDGE_STYLE)))
    sm = SM()
    for n, d in case["nodes"]:
        sm.add_node(n, **d)
    for u, v, d, o in case["edges"]:
        sm.add_edge(u, v, origin=o, **d)

    def dump():
        return ({n: dict(d) for n, d in sm.nodes(data=True)}, {(u, v): dict(d) for u, v, d in sm.edges(data=True)}, dict(sm.graph))
    before = copy.deepcopy(dump())
    args = {}
    for short, name in (("an", "all_node_attributes"), ("ae", "all_edge_attributes"), ("na", "node_attributes"), ("ea", "edge_attributes"), ("ga", "graph_attributes")):
        if case[short] is not None:
            args[name] = copy.deepcopy(case[short])
    if case["prog"]:
        args["prog"] = case["prog"]
    args0 = copy.deepcopy(args)
    g = plots.plot_structure(sm, **args)
    if case["twice"]:
        g = plots.plot_structure(sm, **args)
    ctx.require(dump() == before, lambda: "plotting changed the structure: %r" % (dump(),))
    ctx.require(args == args0, lambda: "plotting changed the caller's attributes: %r" % (args,))
    ctx.require((plots.GRAPH_STYLE, tuple(plots.NODE_STYLE), tuple(plots.EDGE_STYLE)) == styles0, "plotting changed the style constants")
    got_n = {str(n): dict(n.attr) for n in g.nodes()}
    got_e = {tuple(map(str, e)): dict(e.attr) for e in g.edges()}
    ctx.require(set(got_n) == {str(n) for n, _ in case["nodes"]}, "plotted nodes %r" % sorted(got_n))
    ctx.require(set(got_e) == {(str(u), str(v)) for u, v, _, _ in case["edges"]}, "plotted edges %r" % sorted(got_e))
    for n, _ in case["nodes"]:
        want = dict(styles0[1][1])
        want.update(case["an"] or {})
        want.update((case["na"] or {}).get(n, {}))
        have = got_n[str(n)]
        for k, v in want.items():
            ctx.require(have.get(k) == str(v), lambda: "node %r has %s=%r, expected %r" % (n, k, have.get(k), v))
        if "label" not in want:
            ctx.require(have.get("label", "").startswith(str(n)), "node %r is labelled %r" % (n, have.get("label")))
    for u, v, d, _ in case["edges"]:
        want = dict(styles0[2][1])
        want.update(case["ae"] or {})
        want.update((case["ea"] or {}).get((u, v), {}))
        have = got_e[(str(u), str(v))]
        for k, x in want.items():
            ctx.require(have.get(k) == str(x), lambda: "edge %r has %s=%r, expected %r" % ((u, v), k, have.get(k), x))
    want = dict(styles0[0])
    want.update(case["ga"] or {})
    for k, x in want.items():
        ctx.require(g.graph_attr.get(k) == str(x), lambda: "graph has %s=%r, expected %r" % (k, g.graph_attr.get(k), x))
    if hasattr(g, "layouts"):
        ctx.require(g.layouts and g.layouts[-1] == (case["prog"] or "neato"), "laid out with %r, asked for %r" % (g.layouts, case["prog"]))
    over = bool(case["an"] and case["na"] and any(set(d) & set(case["an"]) for d in case["na"].values()))
    ctx.label("specific overrides general (node)", over)
    ctx.label("specific overrides general (edge)", bool(case["ae"] and case["ea"] and any(set(d) & set(case["ae"]) for d in case["ea"].values())))
    ctx.nontrivial(sum(case[k] is not None for k in ("an", "ae", "na", "ea", "ga")) >= 2)


# ---------------------------------------------------------------- P02
@st.composite
def gradient_case(draw):
    def colour():
        k = draw(st.sampled_from([3, 4, 4]))
        mode = draw(st.integers(0, 2))
        ch = [draw(st.integers(0, 255) if mode else st.sampled_from([0, 255, 1, 254, 128])) for _ in range(k)]
        h = "#" + "".join("%02x" % c for c in ch)
        return h.upper() if draw(st.booleans()) else h
    return {"a": colour(), "b": colour(), "steps": draw(st.one_of(st.integers(1, 12), st.integers(1, 120), st.just(1), st.sampled_from([255, 256, 300, 511])))}


def channels(c):
    return [int(c[i:i + 2], 16) for i in range(1, len(c), 2)]


def check_gradient(case, ctx):
    f = mods.get("plots.plots").color_gradient_string
    a, b, steps = case["a"], case["b"], case["steps"]
    text = f(a, b, steps)
    parts = text.split(":")
    what = "color_gradient_string(%r, %r, %d)" % (a, b, steps)
    ctx.require(len(parts) == steps + 1, "%s has %d colours" % (what, len(parts)))
    cols, shares = [], []
    for p in parts:
        m = re.match(r"\A(#(?:[0-9a-fA-F]{2}){3,4});([0-9]+\.[0-9]+)\Z", p)
        ctx.require(m, "%s contains %r" % (what, p))
        cols.append(channels(m.group(1)))
        shares.append(float(m.group(2)))

    def rgba(c):
        return c + [255] if len(c) == 3 else c     # an rgb colour is opaque
    cols = [rgba(c) for c in cols]
    ca, cb = rgba(channels(a)), rgba(channels(b))
    ctx.require(cols[0] == ca, "%s starts with %s" % (what, parts[0]))
    ctx.require(cols[-1] == cb, "%s ends with %s" % (what, parts[-1]))
    for k in range(4):
        seq = [c[k] for c in cols]
        up = cb[k] >= ca[k]
        ctx.require(all((y >= x) if up else (y <= x) for x, y in zip(seq, seq[1:])), "%s: channel %d is not monotone: %r" % (what, k, seq))
        for i, x in enumerate(seq):
            ctx.require(abs(x - (ca[k] + (cb[k] - ca[k]) * i / steps)) <= 1.0 + 1e-9, "%s: channel %d is %d at step %d" % (what, k, x, i))
    ctx.require(len(set(shares)) == 1 and abs(shares[0] - 1.0 / (steps + 1)) <= 0.005 + 1e-9, "%s: shares are %r" % (what, shares[:4]))
    ctx.label("with and without alpha mixed", len(a) != len(b))
    ctx.nontrivial(steps > 1 and ca != cb)


def M01():
    return Prop("M01", [Leg("mapper", schema_case, check_mapper, quick=7000)], "")


def M02():
    return Prop("M02", [Leg("validate_schema", validate_case, check_validate, quick=10000)], "")


def D01():
    return Prop("D01", [Leg("discretise", disc_case, check_disc, quick=10000)], "")


def D02():
    return Prop("D02", [Leg("arguments", disc_args, check_disc_args, quick=10000)], "")


def P01():
    return Prop("P01", [Leg("plot", plot_case, check_plot, quick=6000)], "")


def P02():
    return Prop("P02", [Leg("gradient", gradient_case, check_gradient, quick=15000)], "")


PROPS = {"M01": M01, "M02": M02, "D01": D01, "D02": D02, "P01": P01, "P02": P02}
