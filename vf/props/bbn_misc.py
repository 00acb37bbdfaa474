"""B03, B04, B05, B09, B11: evidence validation, purity, construction, sampling, export."""
import copy
import math
import random
import re
from itertools import product

from hypothesis import strategies as st

from .. import nets
from ..core import Leg, Prop, Violation, expect_raises


def build_any(c, how):
    if how == "tables":
        from causalnex.ebaybbn import build_bbn_from_conditionals
        return build_bbn_from_conditionals(nets.conditionals(c))
    return nets.build(c)


# ---------------------------------------------------------------- B03
ODD_NAMES = ["", "f_a", "F", "a ", "A", "self_", "zz", "x1", "rush-hour", "1", "None", "f_f_t", "query", "nodes", "variable_name"]
ODD_VALUES = [None, "nope", "True", "false", -17, 99, 2, 0.25, float("nan"), (), ("t", 9), "", "a", "A", True, False, 0, 1, "low", "LOW"]


def same(a, b):
    """Labels that Python regards as the same state (so not distinguishable)."""
    try:
        return a == b
    except Exception:  # noqa
        return False


@st.composite
def evidence_case(draw):
    c = draw(nets.nets(max_n=6, joint_cap=512))
    ev = [[c["v"][i], c["d"][i][s]] for i, s in nets.evidence_for(draw, c)]
    used = {k for k, _ in ev}
    bad = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        if draw(st.booleans()):
            base = draw(st.sampled_from(c["v"]))
            name = draw(st.sampled_from(ODD_NAMES + [base.upper(), base.lower(), base + "_", "f_" + base, base[:-1], " " + base]))
            if name in c["v"] or name in used:
                continue
            val = draw(st.sampled_from([True, False, "x", None] + c["d"][0]))
            bad.append([name, val, "name"])
            used.add(name)
        else:
            i = draw(st.integers(0, len(c["v"]) - 1))
            if c["v"][i] in {b[0] for b in bad}:
                continue
            others = [l for d in c["d"] for l in d]
            val = draw(st.sampled_from(ODD_VALUES + others + [str(l) for l in c["d"][i]]))
            if any(same(val, l) for l in c["d"][i]):
                continue
            ev = [e for e in ev if e[0] != c["v"][i]]
            bad.append([c["v"][i], val, "value"])
            used.add(c["v"][i])
    order = draw(st.permutations(range(len(ev) + len(bad))))
    how = draw(st.sampled_from(["factors", "factors", "tables"]))
    return {"net": c, "ev": ev, "bad": bad, "order": list(order), "how": how}


def check_evidence(case, ctx):
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError
    c = case["net"]
    b = build_any(c, case["how"])
    items = [(k, v) for k, v in case["ev"]] + [(k, v) for k, v, _ in case["bad"]]
    items = [items[i] for i in case["order"]]
    ev = dict(items)
    ctx.label("valid evidence", not case["bad"])
    ctx.label("invalid: %d" % len(case["bad"]))
    ctx.label("invalid alongside valid", bool(case["bad"]) and bool(case["ev"]))
    if not case["bad"]:
        try:
            b.query(**ev)
        except (VariableNotInGraphError, VariableValueNotInDomainError) as e:
            ctx.fail("valid evidence %r was rejected: %s %s" % (ev, type(e).__name__, e))
        ctx.nontrivial(bool(ev))
        return
    kinds = {k for _, _, k in case["bad"]}
    allowed = []
    if "name" in kinds:
        allowed.append(VariableNotInGraphError)
    if "value" in kinds:
        allowed.append(VariableValueNotInDomainError)
    e = expect_raises(ctx, tuple(allowed), lambda: b.query(**ev), "query(**%r)" % ev)
    msg = str(e)
    if isinstance(e, VariableNotInGraphError):
        names = [k for k, _, t in case["bad"] if t == "name"]
        ctx.require(any(k in msg for k in names), "the error %r does not name the unknown variable (%r)" % (msg, names))
    else:
        pairs = [(k, v) for k, v, t in case["bad"] if t == "value"]
        ctx.require(any(k in msg and str(v) in msg for k, v in pairs),
                    "the error %r does not name the offending observation (%r)" % (msg, pairs))
    ctx.nontrivial()


def B03():
    return Prop("B03", [Leg("evidence", evidence_case, check_evidence, quick=9000)], "")


# ---------------------------------------------------------------- B04
def snapshot(b):
    out = []
    for n in b.nodes:
        args = list(n.argspec)
        from causalnex.ebaybbn.utils import get_args
        fargs = list(get_args(n.func))
        doms = [list(b.domains.get(a, [True, False])) for a in fargs]
        table = [(combo, n.func(*combo)) for combo in product(*doms)]
        out.append((id(n), n.name, n.variable_name, args, fargs, [id(p) for p in n.parents], [id(k) for k in n.children],
                    sorted(map(repr, table))))
    return out, {k: sorted(map(repr, v)) for k, v in b.domains.items()}, [id(n) for n in b.nodes]


@st.composite
def history_case(draw):
    k = draw(st.sampled_from([1, 2, 2, 3]))
    cs = [draw(nets.nets(max_n=5, joint_cap=128)) for _ in range(k)]
    if k > 1 and draw(st.booleans()):
        # a second network over the same variables and factor names but different tables
        c = dict(cs[0])
        c["w"] = [[[x + 1 for x in row[1:]] + [row[0] + 2] for row in rows] for rows in c["w"]]
        cs[1] = c
    ops = []
    last = None
    for _ in range(draw(st.sampled_from([2, 4, 5, 6, 8, 10, 12, 14]))):
        i = draw(st.integers(0, k - 1))
        op = draw(st.sampled_from(["q", "q", "q", "again", "bad", "s", "s", "jt", "prop", "gv", "val", "moral", "clobber", "rebuild"]))
        if op in ("q", "s", "prop", "val", "clobber"):
            last = nets.evidence_for(draw, cs[i])
            ops.append([op, i, last])
        elif op == "again" and last is not None and ops:
            ops.append(["q", ops[-1][1], ops[-1][2] if isinstance(ops[-1][2], list) else []])
        elif op == "bad":
            ops.append([op, i, draw(st.sampled_from(["name", "value", "both"]))])
        else:
            ops.append([op if op != "again" else "q", i, []])
    return {"nets": cs, "ops": ops, "how": [draw(st.sampled_from(["factors", "factors", "tables"])) for _ in cs]}


def check_history(case, ctx):
    import causalnex.ebaybbn as eb
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError
    cs = case["nets"]
    bs = [build_any(c, how) for c, how in zip(cs, case["how"])]
    snaps = [snapshot(b) for b in bs]
    default_before = dict(eb.build_bbn(lambda_factor()).domains)
    saw_q, saw_other = False, False
    for step, (op, i, arg) in enumerate(case["ops"]):
        c, b = cs[i], bs[i]
        what = "step %d (%s on network %d)" % (step, op, i)
        if op in ("q", "clobber"):
            kw = nets.kwargs(c, arg)
            before = copy.deepcopy(kw)
            pe, want = nets.posterior_small(c, arg)
            if 0 < pe < 1e-290:
                ctx.discard()
            got = b.query(**kw)
            ctx.require(repr(kw) == repr(before), "%s changed the evidence" % what)
            nets.compare(ctx, c, got, want, what="%s: query(%r)" % (what, kw))
            saw_q = saw_q or step > 0
            if op == "clobber":
                for key in list(got):
                    got[key] = -1.0
        elif op == "bad":
            kw = nets.kwargs(c, [])
            if arg in ("name", "both"):
                kw["no_such_variable"] = True
            if arg in ("value", "both"):
                kw[c["v"][0]] = "no such state"
            expect_raises(ctx, (VariableNotInGraphError, VariableValueNotInDomainError), lambda: b.query(**kw), what)
            saw_other = True
        elif op == "s":
            pe, _ = nets.posterior_small(c, arg)
            if pe <= 1e-12:
                continue
            kw = nets.kwargs(c, arg)
            before = repr(kw)
            random.seed(step)
            count = 1 + (step + i) % 3
            got = b.draw_samples(kw, count)
            ctx.require(repr(kw) == before, "%s changed the evidence passed in to %r" % (what, kw))
            ctx.require(len(got) == count and len({id(s) for s in got}) == count, "%s: %d samples asked for, got %r" % (what, count, got))
            more = [b.draw_samples()[0], b.draw_samples()[0], b.draw_samples(n=1)[0]] if len(c["v"]) < 5 else []
            ctx.require(len({id(s) for s in more}) == len(more) and all(set(s) == set(c["v"]) for s in more),
                        lambda: "%s: samples drawn without evidence share an object or have other variables: %r" % (what, more))
            for s in more:
                s.clear()
            for s in got:
                s.clear()
            ctx.require(repr(kw) == before, "%s returned the caller's own evidence dictionary" % what)
            saw_other = True
        elif op == "jt":
            b.build_join_tree()
            saw_other = True
        elif op == "prop":
            jt = b.build_join_tree()
            kw = nets.kwargs(c, arg)
            before = repr(kw)
            jt.initialize_potentials(jt.assign_clusters(b), b, kw)
            jt.propagate()
            for n in b.nodes:
                jt.marginal(n)
            ctx.require(repr(kw) == before, "%s changed the evidence" % what)
            for n in jt.clique_nodes:
                n.potential_tt.clear()
            saw_other = True
        elif op == "gv":
            b.get_graphviz_source()
        elif op == "val":
            kw = nets.kwargs(c, arg)
            b.validate_keyvals(**kw)
        elif op == "moral":
            gu = eb.make_undirected_copy(b)
            gm = eb.make_moralized_copy(gu, b)
            eb.triangulate(gm)
            saw_other = True
        elif op == "rebuild":
            bs.append(build_any(c, case["how"][i]))
            bs[i], bs[-1] = bs[-1], b
            cs = cs + [c]
            snaps.append(snaps[i])
            snaps[i] = snapshot(bs[i])
        for j, bb in enumerate(bs):
            if snapshot(bb) != snaps[j]:
                ctx.fail("%s changed network %d: nodes, parents, children, domains or tables are not what they were" % (what, j))
    ctx.require(dict(eb.build_bbn(lambda_factor()).domains) == default_before, "declared domains leaked into a network built without domains")
    # finally: every network still answers like a fresh one
    for c, b in zip(cs, bs):
        _, want = nets.posterior_small(c, [])
        nets.compare(ctx, c, b.query(), want, what="query() at the end of the history")
    ctx.label("steps:%d" % len(case["ops"]))
    for op, _, _ in case["ops"]:
        ctx.count("op " + op)
    ctx.nontrivial(saw_q and saw_other)


def lambda_factor():
    def f_q(q):
        return 0.25 if q else 0.75
    return f_q


def B04():
    return Prop("B04", [Leg("operation histories", history_case, check_history, quick=4000)], "")


# ---------------------------------------------------------------- B05
def check_structure(case, ctx):
    from causalnex.ebaybbn.utils import get_args
    c = case
    nets.classify(c, ctx)
    fs = [nets.make_factor(c, i) for i in c["fo"]]
    b = nets.build(c)
    n = len(c["v"])
    ctx.require(len(b.nodes) == n, "%d factors gave %d nodes" % (n, len(b.nodes)))
    by = {}
    for nd in b.nodes:
        ctx.require(nd.variable_name not in by, "two nodes for variable %r" % nd.variable_name)
        by[nd.variable_name] = nd
    ctx.require(set(by) == set(c["v"]), "nodes stand for variables %r, factors introduce %r" % (sorted(by), sorted(c["v"])))
    for i, v in enumerate(c["v"]):
        nd = by[v]
        ctx.require(nd.name == c["fn"][i], "the node of %r is called %r, its factor is called %r" % (v, nd.name, c["fn"][i]))
        got = [p.variable_name for p in nd.parents]
        want = [c["v"][q] for q in c["p"][i]]
        ctx.require(sorted(got) == sorted(want), "parents of %r are %r, its factor's other arguments are %r" % (v, got, want))
        kids = [k.variable_name for k in nd.children]
        wantk = [c["v"][j] for j in range(n) if i in c["p"][j]]
        ctx.require(sorted(kids) == sorted(wantk), "children of %r are %r, should be %r" % (v, kids, wantk))
        for p in nd.parents:
            ctx.require(by[p.variable_name] is p, "a parent of %r is not a node of the network" % v)
        for p in nd.children:
            ctx.require(by[p.variable_name] is p, "a child of %r is not a node of the network" % v)
        args = nets.arg_names(c, i)
        ctx.require(list(get_args(nd.func)) == args, "the factor of %r takes %r, expected %r" % (v, list(get_args(nd.func)), args))
        ref = fs[c["fo"].index(i)]
        doms = {c["v"][q]: c["d"][q] for q in c["p"][i] + [i]}
        for combo in product(*[doms[a] for a in args]):
            ctx.require(nd.func(*combo) == ref(*combo), "the factor of %r was changed" % v)
    declared = nets.declared_domains(c)
    for v, d in declared.items():
        ctx.require(list(b.domains.get(v, ())) == d, "domain of %r is %r, declared %r" % (v, b.domains.get(v), d))
    ctx.nontrivial(any(c["p"]) and (c["fo"] != sorted(c["fo"]) or any(a != sorted(a) for a in c["ao"])))


@st.composite
def table_case(draw):
    c = draw(nets.nets(max_n=6, joint_cap=0, cpt_cap=128))
    return {"net": c, "rows": draw(st.integers(0, 10 ** 6)), "pairs": draw(st.sampled_from(["tuple", "list"])),
            "shuffle_parents": draw(st.booleans())}


def check_tables(case, ctx):
    from causalnex.ebaybbn import build_bbn_from_conditionals, make_node_func
    from causalnex.ebaybbn.utils import get_args
    c = case["net"]
    nets.classify(c, ctx)
    rnd = random.Random(case["rows"])
    conds = nets.conditionals(c)
    listed = {}
    for i, v in enumerate(c["v"]):
        for givens, dist in conds[v]:
            for lab, pr in dist.items():
                listed[(v, frozenset(map(tuple, givens)), lab)] = pr
    for v, rows in conds.items():
        rnd.shuffle(rows)
        for row in rows:
            if case["shuffle_parents"]:
                rnd.shuffle(row[0])
            if case["pairs"] == "list":
                row[0] = [list(x) for x in row[0]]
            keys = list(row[1].items())
            rnd.shuffle(keys)
            row[1] = dict(keys)
    before = repr(conds)
    b = build_bbn_from_conditionals(conds)
    ctx.require(repr(conds) == before, "building changed the caller's tables")
    by = {nd.variable_name: nd for nd in b.nodes}
    ctx.require(set(by) == set(c["v"]) and len(b.nodes) == len(c["v"]), "nodes %r, tables %r" % (sorted(by), sorted(c["v"])))
    for i, v in enumerate(c["v"]):
        nd = by[v]
        dom = list(b.domains.get(v, [True, False]))
        ctx.require(len(dom) == len(c["d"][i]) and all(any(type(x) is type(l) and x == l for x in dom) for l in c["d"][i]),
                    "domain of %r is %r, its table lists %r" % (v, dom, c["d"][i]))
        got = sorted(p.variable_name for p in nd.parents)
        ctx.require(got == sorted(c["v"][q] for q in c["p"][i]), "parents of %r are %r" % (v, got))
        alone = make_node_func(v, conds[v])
        for f, tag in ((nd.func, "network"), (alone, "factor built alone")):
            args = list(get_args(f))
            ctx.require(sorted(args) == sorted([c["v"][q] for q in c["p"][i]] + [v]), "%s: arguments of %r are %r" % (tag, v, args))
            for combo in product(*[c["d"][q] for q in c["p"][i]]):
                asg = {c["v"][q]: combo[k] for k, q in enumerate(c["p"][i])}
                for lab in c["d"][i]:
                    asg[v] = lab
                    want = listed[(v, frozenset((c["v"][q], combo[k]) for k, q in enumerate(c["p"][i])), lab)]
                    g = f(*[asg[a] for a in args])
                    ctx.require(g == want, lambda: "%s: P(%r) is %r, the table lists %r" % (tag, asg, g, want))
    ctx.nontrivial(any(c["p"]))


def B05():
    return Prop("B05", [
        Leg("factor functions", lambda: nets.nets(max_n=9, joint_cap=0, cpt_cap=64), check_structure, quick=6000),
        Leg("conditional tables", table_case, check_tables, quick=4000),
    ], "")


# ---------------------------------------------------------------- B09
def sampling_domain(c, ev, ctx, floor=1e-6):
    pe, post = nets.posterior_small(c, ev)
    if pe <= floor:
        ctx.discard()
    return post


def check_sample_set(c, ev, samples, n, ctx):
    kw = nets.kwargs(c, ev)
    ctx.require(isinstance(samples, list) and len(samples) == n, "asked for %d samples, got %r" % (n, len(samples)))
    j = nets.joint(c)
    index = [{lab: k for k, lab in enumerate(d)} for d in c["d"]]
    cells = []
    seen_ids = set()
    for s in samples:
        ctx.require(id(s) not in seen_ids, "the same dictionary object was returned for two samples")
        seen_ids.add(id(s))
        ctx.require(set(s) == set(c["v"]), "a sample assigns %r, the variables are %r" % (sorted(s), sorted(c["v"])))
        cell = []
        for i, v in enumerate(c["v"]):
            ctx.require(s[v] in index[i] and type(s[v]) is type(c["d"][i][index[i][s[v]]]), "%r=%r is not in the domain %r" % (v, s[v], c["d"][i]))
            cell.append(index[i][s[v]])
        for k, x in kw.items():
            ctx.require(s[k] == x, "evidence %s=%r but a sample has %r" % (k, x, s[k]))
        ctx.require(j[tuple(cell)] > 0, lambda: "sample %r has probability zero under the network" % (s,))
        cells.append(tuple(cell))
    return j, cells


@st.composite
def sample_case(draw, max_cells=1500, **kw):
    c = draw(nets.nets(**kw))
    ev = nets.evidence_for(draw, c)
    if draw(st.booleans()):
        ev = ev[: len(ev) // 2]
    # make the evidence possible: walk the network and take the most likely state
    return {"net": c, "ev": ev, "n": draw(st.sampled_from([2, 0, 1, 5, 5, 17])), "seed": draw(st.integers(0, 10 ** 9))}


def feasible(case):
    """Replace impossible evidence states by possible ones (deterministically)."""
    c = case["net"]
    j = nets.joint(c)
    import numpy as np
    ev = []
    idx = [slice(None)] * len(c["v"])
    for i, s in case["ev"]:
        for k in range(len(c["d"][i])):
            t = (s + k) % len(c["d"][i])
            idx[i] = t
            if j[tuple(idx)].sum() > 1e-6:
                ev.append([i, t])
                break
        else:
            idx[i] = slice(None)
    return ev


def check_sampling(case, ctx):
    c = case["net"]
    ev = feasible(case)
    nets.classify(c, ctx)
    sampling_domain(c, ev, ctx)
    b = nets.build(c)
    kw = nets.kwargs(c, ev)
    before = repr(kw)
    random.seed(case["seed"])
    n = case["n"]
    samples = b.draw_samples(kw, n) if kw or case["seed"] % 2 else b.draw_samples(n=n)
    ctx.require(repr(kw) == before, "drawing samples changed the evidence passed in to %r" % kw)
    check_sample_set(c, ev, samples, n, ctx)
    more = b.draw_samples(query=kw)
    check_sample_set(c, ev, more, 1, ctx)
    ctx.label("n=%d" % n)
    ctx.label("all variables observed", len(ev) == len(c["v"]))
    ctx.label("some impossible assignment consistent with the evidence", any(0 in r for rows in c["w"] for r in rows))
    ctx.nontrivial(n > 0 and len(ev) < len(c["v"]) and any(c["p"]))


class ForcedRandom:
    """Replaces the uniform random numbers used while sampling by a given sequence of
    values that random() can really return."""

    def __init__(self, values, seed):
        self.values, self.k = values, 0
        self.rng = random.Random(seed)
        self.used = 0

    def __call__(self):
        self.used += 1
        v = self.values[self.k % len(self.values)]
        self.k += 1
        return self.rng.random() if v is None else v


def check_extreme(case, ctx):
    import causalnex.ebaybbn.bbn as mod
    c = case["net"]
    ev = feasible(case)
    sampling_domain(c, ev, ctx)
    b = nets.build(c)
    kw = nets.kwargs(c, ev)
    forced = ForcedRandom([{0: 0.0, 1: 1 - 2.0 ** -53, 2: None, 3: 2.0 ** -53}[x] for x in case["draws"]], case["seed"])
    random.seed(case["seed"])
    old, had = random.random, getattr(mod, "random", None)
    patched = []
    try:
        random.random = forced
        if callable(had):
            mod.random = forced
            patched.append("random")
        samples = b.draw_samples(kw, 3)
    finally:
        random.random = old
        if patched:
            mod.random = had
    ctx.label("forced random numbers used", forced.used > 0)
    check_sample_set(c, ev, samples, 3, ctx)
    ctx.nontrivial(forced.used > 0)


@st.composite
def extreme_case(draw):
    c = draw(nets.nets(max_n=4, joint_cap=64))
    return {"net": c, "ev": nets.evidence_for(draw, c, max_ev=2), "draws": draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)),
            "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def frequency_case(draw):
    c = draw(nets.nets(max_n=4, min_n=2, max_states=3, joint_cap=27))
    ev = nets.evidence_for(draw, c, max_ev=2)
    return {"net": c, "ev": ev, "seed": draw(st.integers(0, 10 ** 9))}


def check_frequencies(case, ctx):
    import numpy as np
    c = case["net"]
    ev = feasible(case)
    n = case.get("n", 4000)
    sampling_domain(c, ev, ctx, floor=1e-6)
    b = nets.build(c)
    random.seed(case["seed"])
    samples = b.draw_samples(nets.kwargs(c, ev), n)
    j, cells = check_sample_set(c, ev, samples, n, ctx)
    idx = np.zeros(j.shape)
    sl = [slice(None)] * j.ndim
    for i, s in ev:
        sl[i] = s
    idx[tuple(sl)] = 1
    p = j * idx
    p = p / p.sum()
    f = np.zeros(j.shape)
    for cell in cells:
        f[cell] += 1.0 / n
    # Chernoff bound on the tails of the binomial distribution: error probability below 1e-12 per comparison
    def plausible(q, g):
        if q <= 0 or q >= 1:
            return abs(q - g) * n < 0.5
        kl = (g * math.log(g / q) if g > 0 else 0.0) + ((1 - g) * math.log((1 - g) / (1 - q)) if g < 1 else 0.0)
        return n * kl <= math.log(2e12)
    nd = j.ndim
    events = [tuple(range(nd))] + [(a,) for a in range(nd)] + [(a, b2) for a in range(nd) for b2 in range(a)]
    for keep in events:
        drop = tuple(a for a in range(nd) if a not in keep)
        pp, ff = p.sum(axis=drop), f.sum(axis=drop)
        for q, g in zip(np.ravel(pp), np.ravel(ff)):
            ctx.require(plausible(min(max(float(q), 0.0), 1.0), min(max(float(g), 0.0), 1.0)),
                        lambda: "over %d samples an assignment of %r has frequency %.5f, exact probability %.5f" % (
                            n, [c["v"][a] for a in sorted(keep)], g, q))
    free = len(c["v"]) - len(ev)
    ctx.count("samples", n)
    ctx.label("free variables: %d" % free)
    ctx.nontrivial(free >= 1 and float(p.max()) < 0.999)


@st.composite
def rare_case(draw):
    """Small networks in which most rows have a state of weight one among weights of hundreds."""
    c = draw(nets.nets(max_n=2, max_states=3, joint_cap=9))
    w = []
    for rows in c["w"]:
        new = []
        for row in rows:
            k = draw(st.integers(0, len(row) - 1))
            new.append([draw(st.sampled_from([1, 1, 2, 5, 0])) if i == k and len(row) > 1 else draw(st.integers(60, 400)) for i in range(len(row))])
        w.append(new)
    c["w"] = w
    return {"net": c, "ev": [], "seed": draw(st.integers(0, 10 ** 9)), "n": 30000}


def B09():
    ex = []
    for t in range(4):
        ex.append({"net": nets._mk(["a", "b"], [["r", "s", "t"], [True, False]], [[], [0]], [[[0, 1, 2]], [[1, 1], [0, 1], [1, 0]]]),
                   "ev": [], "draws": [t], "seed": 1})
        ex.append({"net": nets._mk(["a"], [list(range(4))], [[]], [[[1, 1, 1, 7]]]), "ev": [], "draws": [t], "seed": 2})
    return Prop("B09", [
        Leg("extreme random numbers", extreme_case, check_extreme, quick=2400, examples=ex),
        Leg("sample sets", lambda: sample_case(max_n=5, joint_cap=128), check_sampling, quick=3000),
        Leg("frequencies", frequency_case, check_frequencies, quick=240, thorough=3000),
        Leg("rare states", rare_case, check_frequencies, quick=48, thorough=600),
    ], "")


# ---------------------------------------------------------------- B11
DOT_WORDS = {"node", "edge", "graph", "digraph", "subgraph", "strict"}
ID = r'(?:"(?:[^"\\]|\\.)*"|[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*|-?[0-9.]+)'


def unquote(x):
    return x[1:-1].replace('\\"', '"') if x.startswith('"') else x


def parse_dot(text):
    """Nodes (list), edges (list) of a DOT digraph; raises ValueError when malformed."""
    m = re.match(r"\s*(?:strict\s+)?digraph\s*(%s)?\s*\{(.*)\}\s*\Z" % ID, text, re.S)
    if not m:
        raise ValueError("not a digraph")
    body = m.group(2)
    nodes, edges = [], []
    pos = 0
    tok = re.compile(r'\s*(?:(?P<stmt>%s)(?P<edge>(?:\s*->\s*%s)*)\s*(?P<attr>\[(?:[^\]"]|"(?:[^"\\]|\\.)*")*\])?\s*;?)' % (ID, ID))
    while body[pos:].strip():
        mm = tok.match(body, pos)
        if not mm or mm.end() == pos:
            raise ValueError("cannot parse %r" % body[pos:pos + 40])
        pos = mm.end()
        first = mm.group("stmt")
        if mm.group("edge").strip():
            chain = [unquote(first)] + [unquote(x) for x in re.findall(ID, mm.group("edge"))]
            edges.extend(zip(chain, chain[1:]))
        elif first.lower() in ("graph", "node", "edge"):
            continue
        else:
            nodes.append(unquote(first))
    return nodes, edges


@st.composite
def export_case(draw):
    c = draw(nets.nets(max_n=draw(st.sampled_from([9, 9, 9, 28])), joint_cap=0, cpt_cap=32))
    fix = [x + "_" if x.lower() in DOT_WORDS else x for x in c["fn"]]
    c["fn"] = fix
    fo2 = list(draw(st.permutations(range(len(c["v"])))))
    return {"net": c, "fo2": fo2}


def check_export(case, ctx):
    c = case["net"]
    nets.classify(c, ctx)
    text = nets.build(c).get_graphviz_source()
    ctx.require(isinstance(text, str), "the description is not text")
    try:
        nodes, edges = parse_dot(text)
    except ValueError as e:
        raise Violation("the description is not well-formed: %s\n%s" % (e, text))
    ctx.require(sorted(nodes) == sorted(c["fn"]), "declared nodes %r, factors %r" % (sorted(nodes), sorted(c["fn"])))
    want = sorted((c["fn"][q], c["fn"][i]) for i in range(len(c["v"])) for q in c["p"][i])
    ctx.require(sorted(edges) == want, "declared links %r, the network has %r" % (sorted(edges), want))
    c2 = dict(c, fo=case["fo2"])
    text2 = nets.build(c2).get_graphviz_source()
    ctx.require(text2 == text, "the description depends on the order of the factors:\n%s\n%s" % (text, text2))
    ctx.nontrivial(any(c["p"]) and case["fo2"] != c["fo"])


def B11():
    return Prop("B11", [Leg("export", export_case, check_export, quick=8000)], "")


PROPS = {"B03": B03, "B04": B04, "B05": B05, "B09": B09, "B11": B11}
