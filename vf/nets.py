"""Discrete Bayesian networks: strategies, builders for the code under test, and
reference inference (numpy, independent of the code under test)."""
import keyword
from itertools import product

import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------------------
# case format (plain literals):
#   v   variable names, in a topological order
#   d   domain (list of labels) per variable
#   p   parent indices per variable (ascending, all < own index)
#   w   one row of integer weights per parent configuration (product order of p)
#   fn  factor names
#   fo  order in which factors are handed over (permutation)
#   ao  per variable: permutation of its argument list (parents + itself)
#   dm  which variables' domains are declared (True/False ones may be omitted)
#   st  factor style: 0 argspec attribute, 1 real signature
#   va  pass factors as varargs instead of a list

NAME_POOLS = [
    list("abcdefghijklmnopqrstuvwxyz"),
    ["a", "ab", "abc", "b", "ba", "A", "AB", "Ab", "aB", "B", "bA", "c", "ca", "C", "cA", "CA", "bc", "bca",
     "x", "xa", "X", "Xa", "y", "Y", "ya", "Ya", "z", "Z", "za", "ZA"],
    ["x1", "x10", "x2", "x20", "x11", "x100", "x3", "x30", "x12", "x110", "x4", "x40", "x13", "x5", "x6", "x60",
     "x7", "x8", "x9", "x90", "x14", "x15", "x16", "x17", "x18", "x19", "x21", "x22", "x23", "x24"],
    ["rush_hour", "traffic", "weather", "_t", "T", "t_", "t", "f_t", "f_f_t", "f_a", "f", "a_f", "node", "name", "k",
     "v", "kwds", "n", "query", "value", "evidence", "key", "domain", "args", "var", "q1", "q2", "q3", "q4", "q5"],
    # long names that agree at the start, at the end, or nearly everywhere
    ["customer_account_%s" % x for x in ("balance", "balance_2", "balances", "Balance", "type", "type_2", "age", "ages")]
    + ["%s_of_the_customer_account" % x for x in ("balance", "balance_2", "type", "age", "a", "b")]
    + ["customer_%s_account" % x for x in ("a", "b", "aa", "ab", "a_b", "A")] + ["customer", "account", "customer_account", "straße", "strasse", "STRASSE", "ı", "i", "İx"],
]

LABEL_POOLS = [
    [True, False],
    [False, True],
    [0, 1, 2, 3, 4, 5],
    [3, 1, 2, 0, -1, 10],
    ["a", "b", "c", "aa", "ab", ""],
    ["low", "medium", "high", "HIGH", "Low", "x"],
    [0.5, 1.5, -2.0, 0.0, 10.25, 3.0],
    [None, "None", (1, 2), 7, "7", 2.5],
    [("t", 1), ("t", 2), ("u",), (), ("t", "1"), ("v", 0)],
]

SHAPES = ("random", "chain", "star_out", "star_in", "tree", "grid", "dense", "window", "islands", "naive", "layers", "loops")


def weight_rows(draw, k, rows, mode):
    out = []
    if mode == "det":
        for _ in range(rows):
            i = draw(st.integers(0, k - 1))
            out.append([1 if j == i else 0 for j in range(k)])
        return out
    if mode == "extreme":
        elem = st.sampled_from([0, 1, 2, 5, 1000, 10 ** 6, 10 ** 9])
    elif mode == "sparse":
        elem = st.sampled_from([0, 0, 1, 2, 3])
    elif mode == "positive":
        elem = st.integers(1, 9)
    else:
        elem = st.integers(0, 9)
    flat = draw(st.lists(elem, min_size=k * rows, max_size=k * rows))
    for r in range(rows):
        row = flat[r * k:(r + 1) * k]
        if not any(row):
            row = row[:-1] + [1]
        out.append(row)
    return out


def parents_for(draw, shape, i, n, max_parents, width):
    if i == 0:
        return []
    if shape == "chain":
        return [i - 1]
    if shape == "star_out" or shape == "naive":
        return [0]
    if shape == "star_in":
        return list(range(max(0, i - max_parents), i)) if i == n - 1 else []
    if shape == "loops":
        far = draw(st.integers(0, 3 * i))
        return sorted({i - 1, far}) if far < i else [i - 1]
    if shape == "tree":
        return [draw(st.integers(0, i - 1))]
    if shape == "grid":
        ps = []
        if i % width:
            ps.append(i - 1)
        if i >= width:
            ps.append(i - width)
        return sorted(ps)
    if shape == "dense":
        return list(range(max(0, i - max_parents), i))
    if shape == "window":
        lo = max(0, i - width - 1)
        return sorted(draw(st.sets(st.integers(lo, i - 1), max_size=min(max_parents, i - lo))))
    if shape == "islands":
        block = i - i % 3
        if block == i:
            return []
        return sorted(draw(st.sets(st.integers(block, i - 1), max_size=max_parents)))
    if shape == "layers":
        lo, hi = (i // width - 1) * width, (i // width) * width
        if lo < 0:
            return []
        return sorted(draw(st.sets(st.integers(lo, hi - 1), max_size=min(max_parents, width))))
    return sorted(draw(st.sets(st.integers(0, i - 1), max_size=max_parents)))


@st.composite
def nets(draw, max_n=6, min_n=1, max_states=4, joint_cap=2048, max_parents=3, shapes=SHAPES, cpt_cap=256,
         binary_only=False, presentation=True):
    n = draw(st.integers(min_n, max_n))
    shape = draw(st.sampled_from(shapes))
    width = draw(st.integers(2, 3))
    pool = draw(st.sampled_from(NAME_POOLS)) if presentation else NAME_POOLS[0]
    if len(pool) < n:
        pool = pool + ["%s%d" % (x, k) for k in range(2, 6) for x in pool]
    names = draw(st.permutations(pool[:max(n, min(len(pool), n + 4))]))[:n]
    one_label_pool = draw(st.integers(0, 3)) > 0
    common = draw(st.sampled_from(LABEL_POOLS))
    doms, joint = [], 1
    wide = draw(st.integers(0, n - 1)) if joint_cap >= 64 and max_states > 2 and not binary_only and draw(st.integers(0, 9)) == 9 else -1
    for i in range(n):
        if i == wide:
            k = draw(st.integers(7, 14))
            k = max(1, min(k, joint_cap // joint))
            joint *= k
            lab = list(draw(st.sampled_from([range(k), range(-3, k - 3), ["s%d" % x for x in range(k)], [x / 4 for x in range(k)]])))
            doms.append(lab[::-1] if draw(st.booleans()) else lab)
            continue
        lp = common if one_label_pool else draw(st.sampled_from(LABEL_POOLS))
        hi = min(max_states, len(lp))
        while hi > 1 and joint_cap and joint * hi > joint_cap:
            hi -= 1
        lo = min(2, hi) if draw(st.integers(0, 9)) else 1
        k = 2 if (binary_only and hi >= 2) else draw(st.integers(lo, hi))
        joint *= k
        doms.append(list(lp[:k]))
    par = []
    many = max_parents if draw(st.integers(0, 3)) else max_parents + 3
    for i in range(n):
        ps = parents_for(draw, shape, i, n, many if shape in ("star_in", "random") else max_parents, width)
        size = len(doms[i])
        keep = []
        for q in ps:
            if size * len(doms[q]) <= cpt_cap:
                size *= len(doms[q])
                keep.append(q)
        par.append(keep)
    mode = draw(st.sampled_from(["any", "positive", "sparse", "extreme", "det", "mixed"]))
    w = []
    for i in range(n):
        rows = 1
        for q in par[i]:
            rows *= len(doms[q])
        m = draw(st.sampled_from(["any", "positive", "sparse", "extreme", "det"])) if mode == "mixed" else mode
        w.append(weight_rows(draw, len(doms[i]), rows, m))
    case = {"v": list(names), "d": doms, "p": par, "w": w}
    if presentation:
        fstyle = draw(st.integers(0, 2))
        if fstyle == 0:
            fn = ["f_" + x for x in names]
        elif fstyle == 1:
            fn = list(names)
        else:
            fn = ["g%d" % k for k in draw(st.permutations(range(n)))]
        case["fn"] = fn
        case["fo"] = list(draw(st.permutations(range(n))))
        case["ao"] = [list(draw(st.permutations(range(len(par[i]) + 1)))) for i in range(n)]
        case["dm"] = draw(st.integers(0, 2))
        case["st"] = draw(st.integers(0, 1))
        case["va"] = draw(st.booleans())
    else:
        case["fn"] = ["f_" + x for x in names]
        case["fo"] = list(range(n))
        case["ao"] = [list(range(len(par[i]) + 1)) for i in range(n)]
        case["dm"], case["st"], case["va"] = 0, 0, False
    return case


def evidence_for(draw, case, max_ev=None):
    n = len(case["v"])
    lo = 0 if draw(st.integers(0, 7)) == 0 else 1
    k = draw(st.integers(min(lo, n), n if max_ev is None else min(n, max_ev)))
    who = sorted(draw(st.sets(st.integers(0, n - 1), min_size=min(k, n), max_size=k))) if k else []
    return [[i, draw(st.integers(0, len(case["d"][i]) - 1))] for i in who]


# ---------------------------------------------------------------------------
def probs(case, i):
    rows = []
    for row in case["w"][i]:
        s = float(sum(row))
        rows.append([x / s for x in row])
    return rows


def cpt_arrays(case):
    """numpy table per variable with axes parents + [own]."""
    out = []
    for i in range(len(case["v"])):
        shape = [len(case["d"][q]) for q in case["p"][i]] + [len(case["d"][i])]
        out.append(np.array(probs(case, i), dtype=float).reshape(shape))
    return out


def joint(case):
    n = len(case["v"])
    sizes = [len(d) for d in case["d"]]
    j = np.ones(sizes)
    for i, t in enumerate(cpt_arrays(case)):
        axes = case["p"][i] + [i]
        order = np.argsort(axes)
        t2 = np.transpose(t, order)
        shape = [1] * n
        for a in axes:
            shape[a] = sizes[a]
        j = j * t2.reshape(shape)
    return j


def posterior_small(case, ev):
    """Returns P(evidence), list of posterior vectors (zeros when impossible)."""
    n = len(case["v"])
    j = joint(case)
    for i, s in ev:
        idx = [slice(None)] * n
        keep = np.zeros(j.shape[i])
        keep[s] = 1.0
        shape = [1] * n
        shape[i] = j.shape[i]
        j = j * keep.reshape(shape)
    pe = j.sum()
    res = []
    for i in range(n):
        m = j.sum(axis=tuple(k for k in range(n) if k != i))
        res.append(m / pe if pe > 0 else np.zeros_like(m))
    return pe, res


def posterior_ve(case, ev):
    """Variable elimination (min-fill-free, min-size) with numpy; independent of the code under test."""
    n = len(case["v"])
    sizes = [len(d) for d in case["d"]]
    fac = []
    for i, t in enumerate(cpt_arrays(case)):
        fac.append((tuple(case["p"][i] + [i]), t))
    for i, s in ev:
        k = np.zeros(sizes[i])
        k[s] = 1.0
        fac.append(((i,), k))

    def mult(fs, keep):
        vs = sorted({v for a, _ in fs for v in a})
        out = None
        for axes, t in fs:
            t2 = np.transpose(t, np.argsort(axes))
            shape = [sizes[v] if v in axes else 1 for v in vs]
            t2 = t2.reshape(shape)
            out = t2 if out is None else out * t2
        out = np.broadcast_to(out, [sizes[v] for v in vs])
        drop = tuple(k for k, v in enumerate(vs) if v not in keep)
        if drop:
            out = out.sum(axis=drop)
        return tuple(v for v in vs if v in keep), out

    res, pe = [], None
    for target in range(n):
        fs = list(fac)
        todo = [v for v in range(n) if v != target]
        while todo:
            best, bs = None, None
            for v in todo:
                vs = {u for a, _ in fs if v in a for u in a}
                sz = 1
                for u in vs:
                    sz *= sizes[u]
                if bs is None or sz < bs:
                    best, bs = v, sz
            inv = [f for f in fs if best in f[0]]
            fs = [f for f in fs if best not in f[0]]
            keep = {u for a, _ in inv for u in a} - {best}
            fs.append(mult(inv, keep))
            todo.remove(best)
        scal = 1.0
        fs2 = []
        for a, t in fs:
            if a == ():
                scal *= float(t)
            else:
                fs2.append((a, t))
        _, vec = mult(fs2, {target})
        vec = vec * scal
        pe = vec.sum()
        res.append(vec / pe if pe > 0 else np.zeros(sizes[target]))
    return pe, res


# ---------------------------------------------------------------------------
def arg_names(case, i):
    full = [case["v"][q] for q in case["p"][i]] + [case["v"][i]]
    return [full[k] for k in case["ao"][i]]


def make_factor(case, i):
    full = list(case["p"][i]) + [i]
    order = case["ao"][i]
    args = arg_names(case, i)
    table = {}
    doms = [case["d"][q] for q in full]
    rows = probs(case, i)
    for r, combo in enumerate(product(*doms[:-1])):
        for k, lab in enumerate(doms[-1]):
            vals = combo + (lab,)
            table[tuple(vals[o] for o in order)] = rows[r][k]
    if case["st"] == 1 and all(a.isidentifier() and not keyword.iskeyword(a) for a in args):
        ns = {"table": table}
        exec("def factor(%s):\n    return table[(%s,)]" % (", ".join(args), ", ".join(args)), {"table": table}, ns)
        f = ns["factor"]
        # the table must not be shadowed by an argument called 'table'
        if "table" in args:
            f = lambda *a: table[tuple(a)]
            f.argspec = args
    else:
        def f(*a):
            return table[tuple(a)]
        f.argspec = args
    f.__name__ = case["fn"][i]
    return f


def declared_domains(case):
    out = {}
    for i, v in enumerate(case["v"]):
        d = case["d"][i]
        if case["dm"] and len(d) == 2 and set(map(repr, d)) == {"True", "False"}:
            continue
        out[v] = list(d)
    return out


def domain_used(case, i):
    return list(case["d"][i])


def build(case):
    from causalnex.ebaybbn import build_bbn
    fs = [make_factor(case, i) for i in case["fo"]]
    doms = declared_domains(case)
    if case["dm"] == 2 and not doms:
        return build_bbn(*fs) if case["va"] else build_bbn(fs)
    return build_bbn(*fs, domains=doms) if case["va"] else build_bbn(fs, domains=doms)


def conditionals(case, row_perm=None, parent_perm=None):
    """The conditional-table format of build_bbn_from_conditionals."""
    out = {}
    for i in case["fo"]:
        doms = [case["d"][q] for q in case["p"][i]]
        pn = [case["v"][q] for q in case["p"][i]]
        rows = probs(case, i)
        lst = []
        for r, combo in enumerate(product(*doms)):
            givens = list(zip(pn, combo))
            if case["ao"][i]:
                order = [k for k in case["ao"][i] if k < len(pn)]
                givens = [list(givens[k]) for k in order]
            lst.append([givens, {lab: rows[r][k] for k, lab in enumerate(case["d"][i])}])
        if row_perm:
            lst = lst[::-1]
        out[case["v"][i]] = lst
    return out


def kwargs(case, ev):
    return {case["v"][i]: case["d"][i][s] for i, s in ev}


def compare(ctx, case, got, want, tol=1e-9, what="query"):
    keys = {(case["v"][i], lab) for i in range(len(case["v"])) for lab in case["d"][i]}
    gk = set(got.keys())
    if gk != keys:
        ctx.fail("%s returned the wrong set of (variable, state) keys: missing %r, extra %r" % (
            what, sorted(map(repr, keys - gk))[:5], sorted(map(repr, gk - keys))[:5]))
    for i, v in enumerate(case["v"]):
        for k, lab in enumerate(case["d"][i]):
            g = got[(v, lab)]
            x = want[i][k]
            if not (abs(g - x) <= tol):
                ctx.fail("%s: P(%s=%r) is %r, exact value %r" % (what, v, lab, g, float(x)))


def is_connected(case):
    n = len(case["v"])
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for q in case["p"][i]:
            comp[find(i)] = find(q)
    return len({find(i) for i in range(n)}) <= 1


def classify(case, ctx):
    n = len(case["v"])
    ctx.label("vars:%d" % n if n < 8 else "vars:8+")
    ctx.label("connected" if is_connected(case) else "disconnected")
    ctx.label("has zero entries", any(0 in r for rows in case["w"] for r in rows))
    ctx.label("multi-valued", any(len(d) > 2 for d in case["d"]))
    ctx.label("moral edge needed", any(len(p) > 1 for p in case["p"]))
    ctx.label("undirected loop", sum(map(len, case["p"])) >= n)


# ---------------------------------------------------------------------------
# classic networks as fixed examples
def _mk(v, d, p, w):
    n = len(v)
    return {"v": v, "d": d, "p": p, "w": w, "fn": ["f_" + x for x in v], "fo": list(range(n)),
            "ao": [list(range(len(q) + 1)) for q in p], "dm": 0, "st": 0, "va": False}


B = [True, False]
CLASSICS = [
    _mk(["cloudy", "rain", "sprinkler", "wet"], [B] * 4, [[], [0], [0], [1, 2]],
        [[[1, 1]], [[8, 2], [2, 8]], [[1, 9], [5, 5]], [[99, 1], [9, 1], [9, 1], [0, 1]]]),
    _mk(["burglary", "quake", "alarm", "john", "mary"], [B] * 5, [[], [], [0, 1], [2], [2]],
        [[[1, 999]], [[2, 998]], [[95, 5], [94, 6], [29, 71], [1, 999]], [[9, 1], [5, 95]], [[7, 3], [1, 99]]]),
    _mk(["asia", "smoke", "tub", "lung", "bronc", "either", "xray", "dysp"], [B] * 8,
        [[], [], [0], [1], [1], [2, 3], [5], [4, 5]],
        [[[1, 99]], [[1, 1]], [[5, 95], [1, 99]], [[1, 9], [1, 99]], [[6, 4], [3, 7]],
         [[1, 0], [1, 0], [1, 0], [0, 1]], [[98, 2], [5, 95]], [[9, 1], [8, 2], [7, 3], [1, 9]]]),
    _mk(["guest", "prize", "monty"], [["A", "B", "C"]] * 3, [[], [], [0, 1]],
        [[[1, 1, 1]], [[1, 1, 1]], [[0, 1, 1], [0, 0, 1], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 0, 0], [0, 1, 0], [1, 0, 0], [1, 1, 0]]]),
    # Huang & Darwiche's running example
    _mk(["a", "b", "c", "d", "e", "f", "g", "h"], [B] * 8, [[], [0], [0], [1], [2], [3, 4], [2], [4, 6]],
        [[[1, 1]], [[5, 5], [4, 6]], [[7, 3], [2, 8]], [[9, 1], [5, 5]], [[3, 7], [6, 4]],
         [[1, 99], [1, 99], [1, 99], [99, 1]], [[8, 2], [1, 9]], [[5, 95], [95, 5], [95, 5], [95, 5]]]),
    # two unconnected variables, three-component network, chain cut in the middle
    _mk(["a", "b"], [B] * 2, [[], []], [[[1, 3]], [[2, 3]]]),
    _mk(["a", "b", "c", "d", "e"], [B] * 5, [[], [0], [], [2], []], [[[1, 3]], [[1, 2], [0, 1]], [[1, 1]], [[1, 4], [4, 1]], [[3, 1]]]),
    _mk(["x"], [["only"]], [[]], [[[1]]]),
]
