"""B01, B02, B10: exact inference."""
from hypothesis import strategies as st

from .. import nets
from ..core import Leg, Prop


# ---------------------------------------------------------------- strategies
@st.composite
def small_case(draw, evidence, **kw):
    c = draw(nets.nets(**kw))
    ev = nets.evidence_for(draw, c) if evidence else []
    return {"net": c, "ev": ev}


@st.composite
def large_case(draw, evidence):
    shape = draw(st.sampled_from(["chain", "tree", "loops", "loops", "grid", "window", "star_out", "islands", "naive", "layers", "star_in"]))
    hi = 9 if shape == "star_in" else 24
    c = draw(nets.nets(max_n=hi, min_n=6, max_states=3, joint_cap=0, shapes=(shape,),
                       max_parents=7 if shape == "star_in" else 3, cpt_cap=512 if shape == "star_in" else 128,
                       binary_only=shape in ("star_in", "grid", "layers")))
    ev = nets.evidence_for(draw, c, max_ev=6) if evidence else []
    return {"net": c, "ev": ev}


@st.composite
def deep_case(draw, evidence):
    """Very long, thin networks."""
    n = draw(st.integers(30, 330))
    kind = draw(st.sampled_from(["chain", "comb", "pairs"]))
    rows = draw(st.lists(st.lists(st.integers(1, 9), min_size=2, max_size=2), min_size=3, max_size=3))
    ev = sorted(draw(st.sets(st.integers(0, n - 1), max_size=3))) if evidence else []
    return {"n": n, "kind": kind, "rows": rows, "ev": [[i, draw(st.integers(0, 1))] for i in ev]}


def expand_deep(case):
    n = case["n"]
    p = []
    for i in range(n):
        if i == 0:
            p.append([])
        elif case["kind"] == "chain":
            p.append([i - 1])
        elif case["kind"] == "comb":
            p.append([i - 2] if i % 2 == 0 else [i - 1])
        else:
            p.append([i - 1] if i % 2 else [])
    w = [[case["rows"][0]] if not q else [case["rows"][1], case["rows"][2]] for q in p]
    v = ["n%03d" % i for i in range(n)]
    return nets._mk(v, [[True, False]] * n, p, w)


def chain_oracle(c, ev):
    """Exact posteriors for forests with at most one parent per node (two-pass)."""
    import numpy as np
    n = len(c["v"])
    t = nets.cpt_arrays(c)
    evm = dict(map(tuple, ev))
    kids = [[] for _ in range(n)]
    for i in range(n):
        for q in c["p"][i]:
            kids[q].append(i)

    def local(i):
        m = np.ones(2)
        if i in evm:
            m = np.zeros(2)
            m[evm[i]] = 1
        return m
    up = [None] * n
    msg = [None] * n
    for i in range(n - 1, -1, -1):
        b = local(i)
        for k in kids[i]:
            b = b * msg[k]
        s = b.max() or 1.0
        up[i] = b / s
        if c["p"][i]:
            msg[i] = t[i] @ up[i]
    down = [None] * n
    res = []
    for i in range(n):
        if not c["p"][i]:
            down[i] = t[i].reshape(-1)
        else:
            q = c["p"][i][0]
            d = down[q] * local(q)
            for k in kids[q]:
                if k != i:
                    d = d * msg[k]
            down[i] = d @ t[i]
        b = down[i] * up[i]
        res.append(b / b.sum() if b.sum() > 0 else b)
    return res


# ---------------------------------------------------------------- checks
def small(c):
    size = 1
    for d in c["d"]:
        size *= len(d)
    return size <= 64


def run_query(c, ev):
    b = nets.build(c)
    return b.query(**nets.kwargs(c, ev))


def check_prior_small(case, ctx):
    c = case["net"]
    nets.classify(c, ctx)
    _, want = nets.posterior_small(c, [])
    b = nets.build(c)
    got = b.query()
    nets.compare(ctx, c, got, want, what="query()")
    if small(c):        # and once more after evidence
        ev = [[len(c["v"]) - 1, 0]]
        b.query(**nets.kwargs(c, ev))
        nets.compare(ctx, c, b.query(), want, what="query() after query(%r)" % nets.kwargs(c, ev))
    ctx.nontrivial(any(c["p"]))


def check_prior_large(case, ctx):
    c = case["net"]
    nets.classify(c, ctx)
    _, want = nets.posterior_ve(c, [])
    nets.compare(ctx, c, run_query(c, []), want, what="query()")
    ctx.nontrivial(any(c["p"]))


def check_tables_prior(case, ctx):
    from causalnex.ebaybbn import build_bbn_from_conditionals
    c = case["net"]
    nets.classify(c, ctx)
    b = build_bbn_from_conditionals(nets.conditionals(c, row_perm=case["ev"] and True))
    ev = case["ev"]
    pe, want = nets.posterior_small(c, ev)
    got = b.query(**nets.kwargs(c, ev))
    if ev and pe <= 1e-290 and pe != 0:
        ctx.discard()
    nets.compare(ctx, c, got, want, what="query(%r) on the table-built network" % nets.kwargs(c, ev))
    ctx.nontrivial(any(c["p"]))


def post_labels(c, ev, pe, ctx):
    ctx.label("evidence:%d" % len(ev) if len(ev) < 5 else "evidence:5+")
    ctx.label("evidence on all", len(ev) == len(c["v"]))
    ctx.label("impossible evidence", bool(ev) and pe == 0)
    haskids = {q for p in c["p"] for q in p}
    ctx.label("evidence on non-root", any(c["p"][i] for i, _ in ev))
    ctx.label("evidence on leaf only", bool(ev) and all(i not in haskids for i, _ in ev))


def check_post_small(case, ctx):
    c, ev = case["net"], case["ev"]
    nets.classify(c, ctx)
    pe, want = nets.posterior_small(c, ev)
    post_labels(c, ev, pe, ctx)
    if 0 < pe < 1e-290:
        ctx.discard()
    b = nets.build(c)
    got = b.query(**nets.kwargs(c, ev))
    nets.compare(ctx, c, got, want, what="query(%r)" % nets.kwargs(c, ev))
    if ev and small(c):     # the same variables observed in their next state, of the same network
        other = [[i, (s + 1) % len(c["d"][i])] for i, s in ev]
        pe, want = nets.posterior_small(c, other)
        if pe == 0 or pe >= 1e-290:
            nets.compare(ctx, c, b.query(**nets.kwargs(c, other)), want, what="query(%r), asked before,\n  query(%r), asked after that," % (nets.kwargs(c, ev), nets.kwargs(c, other)))
            ctx.label("asked again with other states")
    ctx.nontrivial(bool(ev) and any(c["p"]))


def check_post_large(case, ctx):
    c, ev = case["net"], case["ev"]
    nets.classify(c, ctx)
    pe, want = nets.posterior_ve(c, ev)
    post_labels(c, ev, pe, ctx)
    if 0 < pe < 1e-250:
        ctx.discard()
    nets.compare(ctx, c, run_query(c, ev), want, what="query(%r)" % nets.kwargs(c, ev))
    ctx.nontrivial(bool(ev) and any(c["p"]))


def check_deep(case, ctx):
    c = expand_deep(case)
    ctx.label("deep:%s" % case["kind"])
    ctx.label("more than 255 factors", case["n"] > 255)
    want = chain_oracle(c, case["ev"])
    nets.compare(ctx, c, run_query(c, case["ev"]), want, what="query on a %d-variable %s" % (case["n"], case["kind"]), tol=1e-8)
    ctx.nontrivial()


def all_state_evidence(case):
    """Fixed examples: every single-variable observation of the classic networks."""
    out = []
    for c in nets.CLASSICS:
        out.append({"net": c, "ev": []})
        for i in range(len(c["v"])):
            for s in range(len(c["d"][i])):
                out.append({"net": c, "ev": [[i, s]]})
                j = (i + 1) % len(c["v"])
                if j != i:
                    out.append({"net": c, "ev": sorted([[i, s], [j, 0]])})
    return out


# ---------------------------------------------------------------- B10 metamorphic
@st.composite
def invariance_case(draw):
    big = draw(st.integers(0, 3)) == 0
    if big:
        case = draw(large_case(True))
    else:
        case = draw(small_case(True, max_n=7, joint_cap=0, max_parents=3, max_states=3))
    c = case["net"]
    n = len(c["v"])
    tr = {"ev": case["ev"], "net": c}
    pool = draw(st.sampled_from(nets.NAME_POOLS))
    if len(pool) < n + 2:
        pool = pool + ["q_%d" % k for k in range(n)]
    tr["names"] = list(draw(st.permutations(pool[:max(n, min(len(pool), n + 6))])))[:n]
    tr["fo"] = list(draw(st.permutations(range(n))))
    tr["ao"] = [list(draw(st.permutations(range(len(p) + 1)))) for p in c["p"]]
    tr["fn"] = ["h%d" % k for k in draw(st.permutations(range(n)))] if draw(st.booleans()) else ["f_" + x for x in tr["names"]]
    tr["relabel"] = draw(st.integers(0, len(nets.LABEL_POOLS) - 1))
    tr["dperm"] = [list(draw(st.permutations(range(len(d))))) for d in c["d"]]
    tr["extra"] = draw(st.sampled_from([0, 0, 1, 2]))
    tr["evorder"] = draw(st.booleans())
    return tr


def transform_net(tr):
    """The same model, differently presented. Returns (case, variable map, state maps)."""
    c = tr["net"]
    n = len(c["v"])
    lp = nets.LABEL_POOLS[tr["relabel"]]
    doms, maps = [], []
    for i, d in enumerate(c["d"]):
        labels = lp[:len(d)] if len(lp) >= len(d) else list(range(100, 100 + len(d)))
        perm = tr["dperm"][i]           # new position k holds old state perm[k]
        doms.append([labels[perm[k]] for k in range(len(d))])
        maps.append([labels[k] for k in range(len(d))])
    w = []
    from itertools import product
    import numpy as np
    for i in range(n):
        shape = [len(c["d"][q]) for q in c["p"][i]] + [len(c["d"][i])]
        t = np.array(c["w"][i]).reshape(shape)
        for ax, q in enumerate(c["p"][i] + [i]):
            t = np.take(t, tr["dperm"][q], axis=ax)
        w.append([list(map(int, r)) for r in t.reshape(-1, shape[-1])])
    c2 = {"v": list(tr["names"]), "d": doms, "p": c["p"], "w": w, "fn": list(tr["fn"]), "fo": list(tr["fo"]),
          "ao": tr["ao"], "dm": 0, "st": c["st"], "va": not c["va"]}
    if tr["extra"]:
        k = n
        c2 = dict(c2, v=c2["v"] + ["zz_extra", "Aextra"][:tr["extra"]], d=c2["d"] + [["p", "q", "r"]] * tr["extra"],
                  p=c2["p"] + [[]] + ([[k]] if tr["extra"] == 2 else []),
                  w=c2["w"] + [[[1, 2, 3]]] + ([[[1, 1, 0], [0, 1, 1], [1, 0, 1]]] if tr["extra"] == 2 else []),
                  fn=c2["fn"] + ["h_extra", "Ahextra"][:tr["extra"]], fo=list(range(k, k + tr["extra"]))[::-1] + c2["fo"],
                  ao=c2["ao"] + [[0]] + ([[1, 0]] if tr["extra"] == 2 else []))
    return c2, maps


def check_invariance(tr, ctx):
    c, ev = tr["net"], tr["ev"]
    nets.classify(c, ctx)
    g1 = run_query(c, ev)
    c2, maps = transform_net(tr)
    ev2 = [[i, c2["d"][i].index(maps[i][s])] for i, s in (ev[::-1] if tr["evorder"] else ev)]
    g2 = run_query(c2, ev2)
    changed = (c2["v"] != c["v"]) or c2["fo"] != c["fo"] or tr["extra"]
    impossible = bool(ev) and all(v == 0 for v in g1.values())
    ctx.label("impossible evidence", impossible)
    ctx.label("extra disconnected variables", bool(tr["extra"]))
    for i, v in enumerate(c["v"]):
        for k, lab in enumerate(c["d"][i]):
            a = g1.get((v, lab))
            b = g2.get((c2["v"][i], maps[i][k]))
            if a is None or b is None:
                ctx.fail("missing entry for %s=%r (%r) / renamed %s=%r (%r)" % (v, lab, a, c2["v"][i], maps[i][k], b))
            if not abs(a - b) <= 1e-9:
                ctx.fail("P(%s=%r)=%r but after renaming/reordering P(%s=%r)=%r" % (v, lab, a, c2["v"][i], maps[i][k], b))
    ctx.nontrivial(bool(changed) and any(c["p"]))


def B01():
    return Prop("B01", [
        Leg("small networks vs brute-force joint", lambda: small_case(False, max_n=7), check_prior_small, quick=7000,
            examples=[{"net": c, "ev": []} for c in nets.CLASSICS]),
        Leg("larger networks vs variable elimination", lambda: large_case(False), check_prior_large, quick=900),
        Leg("very long networks", lambda: deep_case(False), check_deep, quick=32, thorough=160,
            examples=[{"n": 300, "kind": "chain", "rows": [[1, 2], [3, 1], [1, 4]], "ev": []}]),
        Leg("networks from conditional tables", lambda: small_case(False, max_n=6), check_tables_prior, quick=2000,
            examples=[{"net": c, "ev": []} for c in nets.CLASSICS]),
    ], "")


def B02():
    ex = all_state_evidence(None)
    return Prop("B02", [
        Leg("small networks vs brute-force joint", lambda: small_case(True, max_n=6), check_post_small, quick=9000, examples=ex),
        Leg("larger networks vs variable elimination", lambda: large_case(True), check_post_large, quick=900),
        Leg("very long networks", lambda: deep_case(True), check_deep, quick=16, thorough=120,
            examples=[{"n": 280, "kind": "comb", "rows": [[1, 2], [3, 1], [1, 4]], "ev": [[3, 0], [200, 1]]},
                      {"n": 300, "kind": "chain", "rows": [[1, 2], [3, 1], [1, 4]], "ev": [[3, 0], [200, 1]]}]),
        Leg("networks from conditional tables", lambda: small_case(True, max_n=5), check_tables_prior, quick=2500, examples=ex[:60]),
    ], "")


def B10():
    return Prop("B10", [Leg("renamed and reordered model", invariance_case, check_invariance, quick=6000)], "")


PROPS = {"B01": B01, "B02": B02, "B10": B10}
