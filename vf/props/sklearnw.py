"""T08, T09 (the scikit-learn style regressor and classifier)."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import expit, logsumexp

from .. import glm, mods
from ..core import many_rows, Leg, Prop, expect_raises
from .torchnt import CODES, T_LABELS, Log, make_data, tabu

LABEL_SETS = [[0, 1, 2, 3], [1, 2, 3, 4], [-5, 0, 7, 30], ["a", "b", "c", "d"], ["no", "yes", "zz", "zzz"], ["1", "10", "2", "é"], [10.0, 20.0, 25.0, 100.0], [False, True], [-2.0, 1.0, 5.0, 30.0], [-30, -4, 3, 20]]
MANY = [list(range(12)), ["c%02d" % (7 * i) for i in range(12)], [-7, -5, -3, -1, 0, 2, 8, 9, 10, 11, 100, 101]]
FKINDS = ["cont", "cont", "cont", "bin", "poiss", "cat", "ord"]


@st.composite
def est_case(draw, clf, many=False, wide=False):
    p = draw(st.integers(11, 12) if wide else st.integers(1, 1 if many else 3))
    kinds = draw(st.lists(st.sampled_from(FKINDS), min_size=p, max_size=p))
    hidden = None if wide else draw(st.sampled_from([None, None, None, None, [2]]))
    if draw(st.booleans()):
        kinds = ["cont"] * p
    if hidden:
        kinds = ["cont" if k == "cat" else k for k in kinds]
    if clf:
        labels = draw(st.sampled_from(MANY if many else LABEL_SETS))
        k = draw(st.integers(10 if many else 2, len(labels)))
        tkind = draw(st.sampled_from([None, None, "cat", "ord"] + (["bin"] if k == 2 else [])))
        eff = tkind or ("bin" if k == 2 else "cat")
        extra = {"labels": labels[:k], "ykeep": draw(st.integers(0, 10 ** 6)), "tkind": tkind}
    else:
        tkind = draw(st.sampled_from([None, "cont", "cont", "poiss"]))
        eff = tkind or "cont"
        extra = {"tkind": tkind}
    c = {"seed": draw(st.integers(0, 10 ** 6)), "kinds": kinds + [eff], "n": draw(st.sampled_from([20, 40])), "dens": draw(st.sampled_from([0.5, 1.0, 1.0])), "codes": draw(st.sampled_from(CODES)),
         "scale": draw(st.sampled_from([1, 1, 0.5, 3])), "shift": draw(st.sampled_from([0, 0, 1, -4])), "hidden": hidden}
    c.update(extra)
    c.update(draw(tabu(p + 1)))
    # the target among the tabu nodes
    for k in draw(st.sampled_from([(), (), (), (), (), (), ("tc",), ("tp",), ("tc", "tp")])):
        c[k] = (c[k] or [])[:1] + [p]
    c.update(l1=draw(st.sampled_from([0, 0, 0.02, 0.1])), l2=draw(st.sampled_from([0.01, 0.1, 0.5] if hidden or eff != "cont" else [0, 0.01, 0.1])), bias=draw(st.booleans()), thr=draw(st.sampled_from([0, 0, 0, 0.1, 0.4])),
             max_iter=draw(st.sampled_from([1, 2] if not hidden else [1])), dependent=draw(st.sampled_from([True, True, False])), enforce=draw(st.sampled_from([False, False, True])), std=draw(st.booleans()),
             names=draw(st.permutations(T_LABELS))[:p + 1], sorder=draw(st.none() | st.permutations(range(p))), xtype=draw(st.sampled_from(["frame", "frame", "array"])), ytype=draw(st.sampled_from(["series", "unnamed", "array", "array"])),
             index=draw(st.sampled_from([None, "shift", "shuffle", "repeat"])), dtype=draw(st.sampled_from(["float64", "float64", "int64", "float32"])))
    if many or wide:
        c.update(max_iter=1, n=40)
    if wide:
        c["dens"] = 0.2
    if all(k == "cont" for k in kinds) and draw(st.booleans()):
        c["schema"] = None
        c["sorder"] = None
    return c


def pieces(c, pd):
    """X and y in the containers the case asks for, their float arrays, feature names and the target's name."""
    A = make_data(c)
    p = len(c["kinds"]) - 1
    X, yv = A[:, :p], A[:, p]
    if c["dtype"] == "int64":
        X = np.round(X * np.where(np.array(c["kinds"][:p]) == "cont", 5, 1))
    X = X.astype(c["dtype"])
    if "labels" in c:
        codes = np.searchsorted(np.unique(yv), yv)
        k = len(c["labels"])
        # make_data has its own number of classes; fold or stretch to the case's
        r = np.random.RandomState(c["ykeep"])
        codes = codes % k
        codes[:k] = r.permutation(k)
        move = r.rand(len(codes)) < (0.4 if k > codes.max() + 1 else 0.0)
        codes = np.where(move, r.randint(k, size=len(codes)), codes)
        codes[:k] = r.permutation(k)
        yv, y = codes, np.array(c["labels"])[codes]
    else:
        y = yv = yv.copy()
        if c["kinds"][-1] == "poiss" and c["seed"] % 2:
            y = yv.astype("int64")
    n = len(X)
    index = {None: None, "shift": list(range(7, 7 + n)), "shuffle": [int(i) for i in np.random.RandomState(c["seed"] % 1000).permutation(n)], "repeat": [i // 2 for i in range(n)]}[c["index"]]
    names = list(c["names"][:p]) if c["xtype"] == "frame" else list(range(p))
    target = c["names"][p] if c["ytype"] == "series" else "__target"
    Xo = pd.DataFrame(X, columns=names, index=index) if c["xtype"] == "frame" else X
    if c["ytype"] == "array":
        yo = y
    else:
        # an index on y alone, or the same on both
        yo = pd.Series(y, index=index, name=target if c["ytype"] == "series" else None)
    return Xo, yo, X, yv, y, names, target, index


def params(c, names, target):
    p = len(c["kinds"]) - 1
    label = list(names) + [target]
    kw = {"alpha": c["l1"], "beta": c["l2"], "fit_intercept": c["bias"], "threshold": c["thr"], "dependent_target": c["dependent"], "enforce_dag": c["enforce"], "standardize": c["std"],
          "target_dist_type": c["tkind"], "hidden_layer_units": c["hidden"],
          "dist_type_schema": None if c.get("schema", True) is None else {label[i]: c["kinds"][i] for i in (c["sorder"] or range(p))},
          "tabu_edges": None if c["te"] is None else [(label[u], label[v]) for u, v in c["te"]], "tabu_parent_nodes": None if c["tp"] is None else [label[u] for u in c["tp"]],
          "tabu_child_nodes": None if c["tc"] is None else [label[u] for u in c["tc"]]}
    return kw


def describe(c):
    return "%s target %s from %s features (%s, %s%s)" % ("classifying" if "labels" in c else "regressing", c["kinds"][-1], "/".join(c["kinds"][:-1]), c["xtype"], c["ytype"], ", standardized" if c["std"] else "")


def edges_of(g):
    return {(u, v): (float(e["weight"]), float(e["mean_effect"])) for u, v, e in g.edges(data=True)}


def near(a, b, rtol=1e-3, atol=1e-4):
    return set(a) == set(b) and all(np.allclose(a[k], b[k], rtol=rtol, atol=atol) for k in a)


def quiet(fn):
    with warnings.catch_warnings(), Log():
        warnings.simplefilter("ignore")
        return fn()


def fit(est, c, X, y):
    import torch
    torch.manual_seed(c["seed"])
    return quiet(lambda: est.fit(X, y))


def direct(c, X, yv, names, target, pd):
    """The structure the learner itself gives for the same table and settings."""
    import torch
    m = mods.get("structure.pytorch.notears")
    p = len(names)
    kinds = c["kinds"]
    X = X.astype(float)
    yv = yv.astype(float)
    if c["std"]:
        X = X.copy()
        for j in range(p):
            if kinds[j] == "cont":
                X[:, j] = (X[:, j] - X[:, j].mean()) / (X[:, j].std() or 1)
        if kinds[p] == "cont":
            yv = (yv - yv.mean()) / (yv.std() or 1)
    kw = params(c, names, target)
    schema = dict(kw["dist_type_schema"] or {v: "cont" for v in names})
    schema[target] = kinds[p]
    tp = kw["tabu_parent_nodes"]
    if c["dependent"]:
        tp = (tp or []) + [target]
    data = pd.DataFrame(np.column_stack([X, yv]), columns=list(names) + [target])
    torch.manual_seed(c["seed"])
    return quiet(lambda: m.from_pandas(data, dist_type_schema=schema, lasso_beta=c["l1"], ridge_beta=c["l2"], use_bias=c["bias"], hidden_layer_units=c["hidden"], max_iter=c["max_iter"], w_threshold=c["thr"],
                                       tabu_edges=kw["tabu_edges"], tabu_parent_nodes=tp, tabu_child_nodes=kw["tabu_child_nodes"]))


def test_rows(c, X):
    r = np.random.RandomState(c["seed"] + 5)
    T = X[r.randint(len(X), size=6)].copy()
    for j, k in enumerate(c["kinds"][:-1]):
        if k == "cont" and c["dtype"] != "int64":
            T[:, j] += r.randn(6).astype(T.dtype)
    return T


def expanded(c, X, T, names):
    """Rows T as the expanded, standardized features of a model fitted on X, with the names of the columns."""
    p = len(names)
    order = [(i, c["kinds"][i]) for i in (c["sorder"] or range(p))]
    cols, label, extra, xlabel = [None] * p, list(names), [], []
    for i, kind in order:
        col, new = X[:, i].astype(float), T[:, i].astype(float)
        if kind == "cat":
            cl = np.unique(col)
            cols[i] = (new == cl[0]).astype(float)
            for k in range(1, len(cl)):
                extra.append((new == cl[k]).astype(float))
                xlabel.append("%s%d" % (names[i], k))
        elif kind == "ord":
            cols[i] = np.searchsorted(np.unique(col), new).astype(float)
        elif kind == "cont" and c["std"]:
            cols[i] = (new - col.mean()) / (col.std() or 1)
        else:
            cols[i] = new
    return np.column_stack(cols + extra), label + xlabel


def target_names(c, target):
    k = len(c["labels"]) if "labels" in c and c["kinds"][-1] == "cat" else 1
    return [target] + ["%s%d" % (target, q) for q in range(1, k)]


def snapshot(c, Xo, yo):
    return copy.deepcopy((np.asarray(Xo), np.asarray(yo), getattr(Xo, "index", None) is not None and list(Xo.index), getattr(yo, "index", None) is not None and list(yo.index), getattr(yo, "name", None),
                          list(Xo.columns) if hasattr(Xo, "columns") else None))


def same_snapshot(a, b):
    return all((np.array_equal(x, y) and x.dtype == y.dtype) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def check_labels(c, ctx, est, X, classes, what):
    """Labels are the most probable classes in batches of every make-up: mostly sure of one class, with a few doubtful rows."""
    r = np.random.RandomState(c["seed"] + 11)
    S = X[r.randint(len(X), size=40)].astype(float)
    for j, k in enumerate(c["kinds"][:-1]):
        if k == "cont":
            S[:, j] += np.linspace(-6, 6, 40)[r.permutation(40)]
    P = np.asarray(quiet(lambda: est.predict_proba(S)))
    ctx.require(P.shape == (40, len(classes)) and np.isfinite(P).all(), lambda: "%s: probabilities %r" % (what, P.tolist()))
    top = np.sort(P, axis=1)
    doubtful = np.argsort(top[:, -1] - top[:, -2], kind="stable")[:6]
    for q in list(range(len(classes)))[:3]:
        rows = r.permutation(np.concatenate([np.argsort(-P[:, q], kind="stable")[:15], doubtful]))
        lab = np.asarray(quiet(lambda: est.predict(S[rows])))
        for i, row in enumerate(rows):
            at = np.where(classes == lab[i])[0]
            # rounding may decide near ties
            ctx.require(len(at) == 1 and P[row, at[0]] >= P[row].max() - 1e-3, lambda: "%s: a row with the probabilities %r of %r is labelled %r within a batch" % (what, P[row].tolist(), classes.tolist(), lab[i]))
        if P[rows].mean(0)[q] > 0.8 and (P[rows].argmax(1) != q).any():
            ctx.label("mostly one class, not only")


def check_est(c, ctx, clf):
    import pandas as pd
    sk = mods.get("structure.pytorch.sklearn")
    cls = sk.DAGClassifier if clf else sk.DAGRegressor
    Xo, yo, X, yv, y, names, target, index = pieces(c, pd)
    what = describe(c)
    kw = params(c, names, target)
    before, shots = copy.deepcopy(kw), snapshot(c, Xo, yo)
    est = cls(max_iter=c["max_iter"], **kw)
    back = fit(est, c, Xo, yo)
    ctx.require(back is est, "fit does not return the estimator")
    got = {k: v for k, v in est.get_params().items() if k in before}
    ctx.require(got == before and kw == before, lambda: "%s: fitting changed the parameters from %r to %r" % (what, before, got))
    ctx.require(same_snapshot(shots, snapshot(c, Xo, yo)), lambda: "%s: fitting changed the data" % what)
    # the learned structure is the one of the table of features and target
    g = est.graph_
    ref = direct(c, X, yv, names, target, pd)
    if c["enforce"]:
        ref.threshold_till_dag()
        import networkx as nx
        ctx.require(nx.is_directed_acyclic_graph(g), lambda: "%s: enforce_dag left the cyclic edges %r" % (what, list(g.edges)))
    ea, eb = edges_of(g), edges_of(ref)
    # equal but for rounding near thresholds, and ties between weights
    slip = [k for k in set(ea) ^ set(eb) if not (c["thr"] and abs((ea.get(k) or eb.get(k))[0] - c["thr"]) < 1e-3)]
    tied = c["enforce"] and len({round(v[0], 4) for v in list(ea.values()) + list(eb.values())}) < max(len(ea), len(eb))
    tol = 5e-3 if c["std"] or c["hidden"] else 1e-4
    if not tied:
        ctx.require(set(g.nodes) == set(ref.nodes) and not slip and near({k: v for k, v in ea.items() if k in eb}, {k: v for k, v in eb.items() if k in ea}, tol, tol),
                    lambda: "%s: learned the edges %r; learning directly from the table gives %r" % (what, ea, eb))
        ctx.require(all((a is None) == (b is None) and (a is None or abs(a - b) <= tol * (1 + abs(b))) for a, b in ((g.nodes[v]["bias"], ref.nodes[v]["bias"]) for v in ref.nodes)), lambda: "%s: biases %r instead of %r" % (
            what, {v: g.nodes[v]["bias"] for v in g.nodes}, {v: ref.nodes[v]["bias"] for v in ref.nodes}))
    tn = target_names(c, target)
    if c["dependent"]:
        ctx.require(not any(u in tn for u, _ in g.edges), lambda: "%s: the dependent target has children in %r" % (what, list(g.edges)))
    # coefficients
    coef, imp, icpt = np.asarray(est.coef_), np.asarray(est.feature_importances_), np.asarray(est.intercept_)
    p = len(names)
    wantc = np.array([[ea.get((v, t), (0, 0))[1] for v in names] for t in tn])
    wanti = np.array([[ea.get((v, t), (0, 0))[0] for v in names] for t in tn])
    b = np.array([0.0 if g.nodes[t]["bias"] is None else float(g.nodes[t]["bias"]) for t in tn])
    wide = len(expanded(c, X, X[:1], names)[1])
    if clf:
        ctx.require(coef.shape == (len(tn), wide) and imp.shape == coef.shape and icpt.shape == (len(tn),), lambda: "%s: coef_ of shape %r, importances %r, intercept_ %r" % (what, coef.shape, imp.shape, icpt.shape))
    else:
        ctx.require(coef.shape == (wide,) and imp.shape == coef.shape and icpt.shape == (), lambda: "%s: coef_ of shape %r, importances %r, intercept_ %r" % (what, coef.shape, imp.shape, icpt.shape))
    ctx.require(np.array_equal(np.atleast_2d(coef)[:, :p], wantc) and np.array_equal(np.atleast_2d(imp)[:, :p], wanti) and np.array_equal(np.atleast_1d(icpt), b),
                lambda: "%s: coef_ %r, importances %r, intercept_ %r; the structure has %r, %r, %r" % (what, coef.tolist(), imp.tolist(), icpt.tolist(), wantc.tolist(), wanti.tolist(), b.tolist()))
    for t in list(names) + tn:
        for d, i in (("weight", 0), ("mean_effect", 1)):
            s = est.get_edges_to_node(t, data=d)
            full = {u: w[i] for (u, v), w in ea.items() if v == t}
            have = dict(zip(s.index, np.asarray(s)))
            ctx.require(list(s.index)[:p] == list(names) and all(have.get(u, 0) == w for u, w in full.items()) and all(full.get(u, 0) == w for u, w in have.items()), lambda: "%s: edges to %r are given as %r instead of %r" % (what, t, have, full))
    # predictions
    T = test_rows(c, X)
    To = pd.DataFrame(T, columns=names, index=list(range(100, 106))) if c["xtype"] == "frame" else T
    T0 = T.copy()
    pr = quiet(lambda: est.predict_proba(To) if clf else est.predict(To))
    pr = np.asarray(pr)
    ctx.require(np.array_equal(np.asarray(To), T0) and np.array_equal(T, T0), lambda: "%s: predicting changed the data" % what)
    again = np.asarray(quiet(lambda: est.predict_proba(T) if clf else est.predict(T)))
    ctx.require(np.allclose(pr, again, rtol=1e-9, atol=0, equal_nan=True), lambda: "%s: prediction of the frame %r, of the array %r" % (what, pr.tolist(), again.tolist()))
    for k in (0, 3):
        one = np.asarray(quiet(lambda: est.predict_proba(T[k:k + 1]) if clf else est.predict(T[k:k + 1])))
        ctx.require(np.allclose(one, pr[k:k + 1], rtol=1e-3, atol=1e-4), lambda: "%s: row %d is predicted as %r alone, as %r among others" % (what, k, one.tolist(), pr[k].tolist()))
    if clf:
        classes = np.unique(np.array(c["labels"]))
        ctx.require(np.array_equal(est.classes_, classes), lambda: "%s: classes_ %r" % (what, est.classes_))
        ctx.require(pr.shape == (6, len(classes)) and np.isfinite(pr).all() and (pr >= -1e-6).all() and np.allclose(pr.sum(1), 1, atol=1e-4), lambda: "%s: probabilities %r of the classes %r" % (what, pr.tolist(), classes.tolist()))
        lab = np.asarray(quiet(lambda: est.predict(To)))
        for k in range(6):
            q = np.where(classes == lab[k])[0]
            ctx.require(len(q) == 1 and pr[k, q[0]] >= pr[k].max() - 1e-6, lambda: "%s: row %d is labelled %r with the probabilities %r of %r" % (what, k, lab[k], pr[k].tolist(), classes.tolist()))
        check_labels(c, ctx, est, X, classes, what)
    else:
        ctx.require(pr.shape == (6,) and np.isfinite(pr).all(), lambda: "%s: predictions %r" % (what, pr.tolist()))
    full = not c["thr"] and not c["enforce"]
    if full and not c["hidden"]:
        F, fl = expanded(c, X, T, names)
        W = np.array([[ea.get((v, t), (0, 0))[1] for t in tn] for v in fl])
        Z = F @ W + b
        kind = c["kinds"][-1]
        if kind == "cat":
            want = np.exp(Z - logsumexp(Z, axis=1)[:, None])
        elif kind == "bin":
            want = np.column_stack([1 - expit(Z[:, 0]), expit(Z[:, 0])])
        elif kind == "ord":
            gr = glm.Group("ord", 0, yv)
            want = glm.ord_probs(gr, Z[:, 0])
        elif kind == "poiss":
            want = np.exp(Z[:, 0])
        else:
            want = Z[:, 0]
            if c["std"]:
                want = want * (yv.std() or 1) + yv.mean()
        tol = 2e-3 if kind != "poiss" else 2e-3 * (1 + np.abs(Z).max())
        ctx.require(np.allclose(pr, want, rtol=tol, atol=tol * (1 + (np.abs(Z).max() if not clf else 0))), lambda: "%s: predictions %r; coefficients and intercepts give %r" % (what, pr.tolist(), want.tolist()))
        ctx.label("predictions from coefficients")
    # refitting forgets
    if c["seed"] % 2:
        est2 = cls(max_iter=c["max_iter"], **copy.deepcopy(before))
        Xr, yr = (Xo.iloc[:0], None) if False else (Xo, yo)
        half = 12
        if clf:
            # first a fit with other classes
            keep = np.arange(half) % 2
            first = np.array(["u", "v"])[keep]
        else:
            first = yv[:half] * 2 + 1
        try:
            fit(est2, c, X[:half], first)
        except Exception as ex:  # noqa: B902  (a schema or list naming columns of the frame, or too few categories)
            ctx.label("first fit refused: %s" % type(ex).__name__)
        fit(est2, c, Xr, yr)
        e2 = edges_of(est2.graph_)
        p2 = np.asarray(quiet(lambda: est2.predict_proba(To) if clf else est2.predict(To)))
        ctx.require(near(e2, ea, 1e-6, 1e-6) and p2.shape == pr.shape and np.allclose(p2, pr, rtol=1e-5, atol=1e-6), lambda: "%s: fitted after another fit, edges %r and predictions %r; fitted anew %r and %r" % (what, e2, p2.tolist(), ea, pr.tolist()))
        ctx.label("refitted")
    ctx.label("target " + c["kinds"][-1])
    for k in set(c["kinds"][:-1]):
        ctx.label("feature " + k)
    ctx.label("standardized", c["std"])
    ctx.label("nonlinear", bool(c["hidden"]))
    ctx.label("index %s, %s/%s" % (c["index"], c["xtype"], c["ytype"]))
    ctx.nontrivial(bool(np.abs(wantc).max() > 0) or any(t in tn for _, t in ea))


def t08_case():
    return est_case(False)


def t09_case():
    return est_case(True)


# ---------------------------------------------------------------- rejected inputs, copies
@st.composite
def bad_case(draw, clf):
    return {"what": draw(st.sampled_from(["alpha", "beta", "fit_intercept", "threshold", "target", "unfitted", "nan X", "inf X", "nan y", "length", "clone"] + (["one class", "continuous"] if clf else ["text y"]))),
            "value": draw(st.sampled_from(["1", None, [1], "", (0.1,)])), "flag": draw(st.sampled_from([0, 1, "True", None, 1.0])), "seed": draw(st.integers(0, 1000)),
            "target": draw(st.sampled_from(["ord", "bin", "cat", "poiss", "cont", "normal", "", "Cont"])), "p": draw(st.integers(1, 3)), "frame": draw(st.booleans()),
            "kw": draw(st.fixed_dictionaries({}, optional={"alpha": st.sampled_from([0.1, 2]), "beta": st.sampled_from([0.3, 1]), "fit_intercept": st.booleans(), "threshold": st.sampled_from([0.2, 1]),
                                                          "standardize": st.booleans(), "dependent_target": st.booleans(), "enforce_dag": st.booleans(), "hidden_layer_units": st.sampled_from([None, [2], [0]]),
                                                          "tabu_edges": st.sampled_from([None, [], [("a", "b")]]), "tabu_parent_nodes": st.sampled_from([None, ["a"]]), "tabu_child_nodes": st.sampled_from([None, ["b"]])}))}


def check_bad(c, ctx, clf):
    import pandas as pd
    sk = mods.get("structure.pytorch.sklearn")
    cls = sk.DAGClassifier if clf else sk.DAGRegressor
    r = np.random.RandomState(c["seed"])
    n, p = 12, c["p"]
    X = r.randn(n, p)
    y = (np.arange(n) % 3) if clf else r.randn(n)
    what, kw = c["what"], dict(c["kw"])
    ctx.label(what)
    ctx.nontrivial()
    if what in ("alpha", "beta", "threshold"):
        kw[what] = c["value"]
        return expect_raises(ctx, (TypeError,), lambda: cls(**kw), "%s=%r" % (what, c["value"]))
    if what == "fit_intercept":
        kw[what] = c["flag"]
        return expect_raises(ctx, (TypeError,), lambda: cls(**kw), "%s=%r" % (what, c["flag"]))
    if what == "target":
        kw["target_dist_type"] = c["target"]
        if c["target"] in (("ord", "bin", "cat") if clf else ("cont", "poiss")):
            ctx.require(cls(**kw).get_params()["target_dist_type"] == c["target"], "target_dist_type was not kept")
            return
        return expect_raises(ctx, (NotImplementedError,), lambda: cls(**kw), "target_dist_type=%r" % (c["target"],))
    supported = ("ord", "bin", "cat") if clf else ("cont", "poiss")
    if what == "clone":
        from sklearn.base import clone
        kw["target_dist_type"] = c["target"] if c["target"] in supported else None
        est = cls(**kw)
        cp = clone(est)
        ctx.require(type(cp) is cls and cp is not est and cp.get_params() == est.get_params() and all(cp.get_params()[k] == v for k, v in kw.items()), lambda: "the clone of an estimator with %r has %r" % (kw, cp.get_params()))
        if kw["target_dist_type"] == "bin":
            y = y % 2
        if kw["target_dist_type"] == "poiss":
            y = np.arange(n) % 4
        a = {k: v for k, v in kw.items() if k not in ("hidden_layer_units", "dependent_target", "tabu_edges", "tabu_parent_nodes", "tabu_child_nodes")}
        a.update(beta=0.5)
        e1 = cls(**a)
        e2 = clone(e1)
        one = X[:, :1]
        fit(e1, c, one, y), fit(e2, c, one, y)
        f = (lambda e: e.predict_proba(one)) if clf else (lambda e: e.predict(one))
        ctx.require(np.allclose(f(e1), f(e2), rtol=1e-6, atol=1e-8), lambda: "an estimator with %r predicts %r, its clone %r" % (a, f(e1).tolist(), f(e2).tolist()))
        return
    kw = {k: v for k, v in kw.items() if not k.startswith("tabu") and k != "hidden_layer_units"}
    est = cls(max_iter=1, **kw)
    if what == "unfitted":
        expect_raises(ctx, (AttributeError, ValueError), lambda: est.predict(X), "predicting before fitting")
        expect_raises(ctx, (AttributeError, ValueError), lambda: est.coef_, "coef_ before fitting")
        expect_raises(ctx, (AttributeError, ValueError), lambda: est.get_edges_to_node("a"), "get_edges_to_node before fitting")
        return
    k = r.randint(n)
    if what == "nan X":
        X[k, r.randint(p)] = np.nan
    elif what == "inf X":
        X[k, r.randint(p)] = np.inf
    elif what == "nan y":
        y = y.astype(float)
        y[k] = np.nan
    elif what == "length":
        y = y[:-1]
    elif what == "one class":
        y = np.array(["only"] * n) if c["seed"] % 2 else np.full(n, 3)
    elif what == "continuous":
        y = r.randn(n)
    elif what == "text y":
        y = np.array(["w%d" % i for i in range(n)])
    Xo = pd.DataFrame(X, columns=list("abc")[:p]) if c["frame"] else X
    yo = pd.Series(y) if c["frame"] and c["seed"] % 3 else y
    expect_raises(ctx, (ValueError, TypeError) if what == "nan y" else (ValueError,), lambda: quiet(lambda: est.fit(Xo, yo)), "fitting with %s" % what)


PROPS = {
    "T08": lambda: Prop("T08", [Leg("regressor", t08_case, lambda c, x: check_est(c, x, False), 500, cpu_limit=120), Leg("many rows", lambda: many_rows(t08_case(), (300, 1100)), lambda c, x: check_est(c, x, False), 24, cpu_limit=120), Leg("many features", lambda: est_case(False, wide=True), lambda c, x: check_est(c, x, False), 40, cpu_limit=120), Leg("unusable", lambda: bad_case(False), lambda c, x: check_bad(c, x, False), 300, cpu_limit=120)], ""),
    "T09": lambda: Prop("T09", [Leg("classifier", t09_case, lambda c, x: check_est(c, x, True), 500, cpu_limit=120), Leg("many", lambda: est_case(True, True), lambda c, x: check_est(c, x, True), 40, cpu_limit=120), Leg("many rows", lambda: many_rows(t09_case(), (300, 1100)), lambda c, x: check_est(c, x, True), 24, cpu_limit=120), Leg("many features", lambda: est_case(True, wide=True), lambda c, x: check_est(c, x, True), 40, cpu_limit=120), Leg("unusable", lambda: bad_case(True), lambda c, x: check_bad(c, x, True), 300, cpu_limit=120)], ""),
}
