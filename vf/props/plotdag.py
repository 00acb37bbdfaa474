"""P03: displaying plots, and plots of fitted estimators."""
import copy
import hashlib
import importlib.util
import io
import os
import re
import sys
import types

import numpy as np
from hypothesis import strategies as st

from .. import core, mods
from ..core import Leg, Prop, expect_raises

# ---------------------------------------------------------------- recording stand-ins
IMAGES = {}     # bytes of an image -> (what was drawn, pixels)


class Axes:
    def __init__(self):
        self.calls = []

    def imshow(self, X, **kw):
        self.calls.append(("imshow", np.array(X), kw))

    def axis(self, arg=None, **kw):
        self.calls.append(("axis", arg, kw))

    def set_axis_off(self):
        self.calls.append(("axis", "off", {}))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        from _gap import gap
        gap("matplotlib: Axes.%s is not recorded" % name)


class Figure:
    def __init__(self, figsize=None):
        self.figsize = figsize
        self.axes = []

    def tight_layout(self, **kw):
        pass

    def subplots_adjust(self, **kw):
        pass

    def set_size_inches(self, w, h=None):
        self.figsize = tuple(w) if h is None else (w, h)

    def subplots(self, nrows=1, ncols=1):
        return self.add_subplot()

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        from _gap import gap
        gap("matplotlib: Figure.%s is not recorded" % name)


class Image:
    def __init__(self, data=None, *a, **k):
        self.data = data


FIGURES = []


def _figure(*a, figsize=None, **k):
    FIGURES.append(Figure(figsize))
    return FIGURES[-1]


def _subplots(nrows=1, ncols=1, *a, figsize=None, squeeze=True, **k):
    if min(nrows, ncols) < 1:
        raise ValueError("Number of rows and columns must be positive")
    f = _figure(figsize=figsize)
    axes = np.array([[f.add_subplot() for _ in range(ncols)] for _ in range(nrows)], dtype=object)
    return f, axes if not squeeze else axes.item() if axes.size == 1 else axes.squeeze()


def _imread(fname, format=None):
    if isinstance(fname, (str, os.PathLike)):
        with open(fname, "rb") as fh:
            data = fh.read()
    else:
        data = fname.read()
    return IMAGES[bytes(data)][1].copy()


def plain(attrs):
    """Attributes, without the addresses of objects written as text (a learned node carries its dist_type object)."""
    return sorted((k, re.sub(r" at 0x[0-9a-f]+", "", str(v))) for k, v in dict(attrs).items())


def content(g, prog):
    return (sorted((str(n), plain(n.attr)) for n in g.nodes()), sorted((tuple(map(str, e)), plain(e.attr)) for e in g.edges()), plain(g.graph_attr), prog)


def _draw(self, path=None, format=None, prog=None, args=""):
    prog = prog or (self.layouts[-1] if self.layouts else None)
    if prog is None:
        raise ValueError("graph has no layout")
    what = content(self, prog)
    h = hashlib.blake2b(repr(what).encode()).digest()
    data = ("%s image %s" % (format, h.hex())).encode()
    r = np.random.RandomState(list(h[:16]))
    IMAGES[data] = (what, r.rand(5 + 7 * len(what[0]) + h[0] % 5, 9 + 4 * len(what[1]) + h[1] % 5, 4).astype("float32"))
    if path is None:
        return data
    if isinstance(path, (str, os.PathLike)):
        with open(path, "wb") as fh:
            fh.write(data)
    else:
        path.write(data)


def install(mpl=True, ipython=True, graphviz=True):
    """Put the stand-ins (or, where False, the absence of the package) into sys.modules."""
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        m.__path__ = []
        sys.modules[name] = m
        return m
    for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.axes", "matplotlib.figure", "IPython", "IPython.display"):
        sys.modules[name] = None
    if mpl:
        top = mod("matplotlib")
        top.pyplot = mod("matplotlib.pyplot", imread=_imread, subplots=_subplots, figure=_figure, close=lambda *a, **k: None)
        top.image = mod("matplotlib.image", imread=_imread)
        top.axes = mod("matplotlib.axes", Axes=Axes)
        top.figure = mod("matplotlib.figure", Figure=Figure)
    if ipython:
        mod("IPython").display = mod("IPython.display", Image=Image)


_ready = []


def display():
    if not _ready:
        for m in [m for m in sys.modules if m.startswith("causalnex.plots")]:
            del sys.modules[m]      # a failed import
        install()
        mods.get("plots.plots")
        import pygraphviz
        pygraphviz.AGraph.draw = _draw
        _ready.append(mods.get("plots.display"))
    return _ready[0]


# ---------------------------------------------------------------- displaying
def ask(ctx, what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except ImportError as e:
        ctx.require(False, lambda: "%s: %s although it is installed" % (what, e))


def check_shown(ctx, res, want, kind, ax, size, what, before):
    """`res` shows the image of `want` (see content)."""
    if kind == "ipython":
        ctx.require(type(res) is Image, lambda: "%s returns %r" % (what, res))
        ctx.require(bytes(res.data) in IMAGES and res.data.startswith(b"png"), lambda: "%s: the image data is %r" % (what, res.data))
        got = IMAGES[bytes(res.data)][0]
        ctx.require(got == want, lambda: "%s shows %r instead of %r" % (what, got, want))
        return
    ctx.require(isinstance(res, tuple) and len(res) == 2, lambda: "%s returns %r" % (what, res))
    fig, a = res
    key = [k for k in IMAGES if IMAGES[k][0] == want and k.startswith(b"png")]
    ctx.require(key, lambda: "%s: the expected image %r was never rendered" % (what, want))
    pixels = IMAGES[key[0]][1]
    if ax is not None:
        ctx.require(fig is None and a is ax, lambda: "%s on given axes returns %r" % (what, res))
        ctx.require(len(FIGURES) == before, "%s on given axes makes another figure" % what)
    else:
        ctx.require(type(fig) is Figure and type(a) is Axes and fig.axes == [a], lambda: "%s returns %r" % (what, res))
        ctx.require(fig.figsize is not None and np.allclose(fig.figsize, (pixels.shape[1] * size, pixels.shape[0] * size), rtol=1e-9), lambda: "%s: an image of %d by %d pixels is shown on a figure of size %r with pixel size %r" % (what, pixels.shape[1], pixels.shape[0], fig.figsize, size))
    shows = [c for c in a.calls if c[0] == "imshow"]
    ctx.require(len(shows) == 1 and shows[0][1].shape == pixels.shape and np.array_equal(shows[0][1], pixels), lambda: "%s: %d images shown on the axes, of shapes %r, instead of that of %r" % (what, len(shows), [s[1].shape for s in shows], want))
    last = [c for c in a.calls if c[0] == "axis"]
    ctx.require(last and (last[-1][1] in ("off", False)), lambda: "%s: the axes are left visible (%r)" % (what, last))


SIZES = st.sampled_from([None, None, 0.01, 0.02, 0.5, 1, 1.0])
PROGS = st.sampled_from([None, "neato", "dot", "fdp", "sfdp", "twopi", "circo"])


@st.composite
def shown_case(draw):
    from .misc import plot_case
    return {"plot": draw(plot_case()), "shows": [{"kind": draw(st.sampled_from(["mpl", "mpl", "mpl", "ipython"])), "prog": draw(PROGS), "size": draw(SIZES), "ax": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))]}


def check_shown_case(c, ctx):
    d = display()
    plots = mods.get("plots.plots")
    SM = mods.get("structure.structuremodel").StructureModel
    p = c["plot"]
    sm = SM()
    for n, a in p["nodes"]:
        sm.add_node(n, **a)
    for u, v, a, o in p["edges"]:
        sm.add_edge(u, v, origin=o, **a)
    args = {}
    for short, name in (("an", "all_node_attributes"), ("ae", "all_edge_attributes"), ("na", "node_attributes"), ("ea", "edge_attributes"), ("ga", "graph_attributes")):
        if p[short] is not None:
            args[name] = p[short]
    viz = plots.plot_structure(sm, prog=p["prog"] or "neato", **args)
    snap = content(viz, None)
    for s in c["shows"]:
        kw = {} if s["prog"] is None else {"prog": s["prog"]}
        ax = None
        if s["kind"] == "mpl":
            if s["size"] is not None:
                kw["pixel_size_in"] = s["size"]
            if s["ax"]:
                kw["ax"] = ax = Axes()
        what = "display_plot_%s(%s)" % (s["kind"], ", ".join(sorted(kw)))
        before = len(FIGURES)
        res = ask(ctx, what, d.display_plot_ipython if s["kind"] == "ipython" else d.display_plot_mpl, viz, **kw)
        want = content(viz, s["prog"] or "neato")
        check_shown(ctx, res, want, s["kind"], ax, 0.01 if s["size"] is None else s["size"], what, before)
        ctx.require(content(viz, None) == snap, "%s changed the plot" % what)
        ctx.label(s["kind"])
        ctx.label("given axes", ax is not None)
    ctx.nontrivial(bool(p["edges"]))
    IMAGES.clear()
    FIGURES.clear()


# ---------------------------------------------------------------- fitted estimators
@st.composite
def est_case(draw):
    from .misc import ATTR_E, ATTR_G, ATTR_N
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        kw = draw(st.none() | st.just({}) | st.fixed_dictionaries({}, optional={"all_node_attributes": ATTR_N, "all_edge_attributes": ATTR_E, "graph_attributes": ATTR_G, "prog": st.sampled_from(["dot", "circo", "twopi"])}))
        calls.append({"kw": kw, "enforce": draw(st.sampled_from([None, True, True, False])), "mpl": draw(st.sampled_from([None, True, True, False])), "ax": draw(st.booleans()), "size": draw(SIZES)})
    return {"clf": draw(st.booleans()), "fit": draw(st.integers(0, 11)), "calls": calls}


_fits = {}


def estimator(clf, k):
    """One of a few fitted estimators (cached; every case works on its own copy)."""
    import pandas as pd
    sk = mods.get("structure.pytorch.sklearn")
    from .sklearnw import quiet
    import torch
    if (clf, k) not in _fits:
        r = np.random.RandomState(k)
        p = 1 + k % 4
        X = r.randn(25, p)
        X[:, -1] += X[:, 0]
        z = X.sum(1) + r.randn(25)
        kw = {"dependent_target": k % 3 == 0, "beta": 0.05, "max_iter": 1 + k % 2, "threshold": 0.1 if k % 5 == 0 else 0.0}
        if k % 4 == 3:
            X[:, 1] = np.arange(25) % 3
            kw["dist_type_schema"] = dict(("f%d" % i, "cat" if i == 1 else "cont") for i in range(p))
        df = pd.DataFrame(X, columns=["f%d" % i for i in range(p)])
        y = np.array(["no", "yes", "zz"])[np.digitize(z, [-0.6, 0.6])] if clf and k % 2 else (z > 0).astype(int) if clf else z
        torch.manual_seed(k)
        est = (sk.DAGClassifier if clf else sk.DAGRegressor)(**kw)
        quiet(lambda: est.fit(df, pd.Series(y, name="target")))
        _fits[(clf, k)] = est
    return copy.deepcopy(_fits[(clf, k)])


def graph_state(g):
    return ({n: {k: repr(v) if k != "dist_type" else (type(v).__name__, v.idx) for k, v in d.items()} for n, d in g.nodes(data=True)}, {(u, v): dict(d) for u, v, d in g.edges(data=True)}, sorted(map(str, g.graph)))


def check_est_plot(c, ctx):
    display()
    plots = mods.get("plots.plots")
    sk = mods.get("structure.pytorch.sklearn")
    cls = sk.DAGClassifier if c["clf"] else sk.DAGRegressor
    expect_raises(ctx, (AttributeError, ValueError), lambda: cls().plot_dag(), "plotting before fitting")
    est = estimator(c["clf"], c["fit"])
    before, obj = graph_state(est.graph_), est.graph_
    hist, cut = [], False
    for call in c["calls"]:
        kw, ax = {}, None
        if call["kw"] is not None:
            kw["plot_structure_kwargs"] = copy.deepcopy(call["kw"])
        if call["enforce"] is not None:
            kw["enforce_dag"] = call["enforce"]
        if call["mpl"] is not None:
            kw["use_mpl"] = call["mpl"]
        if call["ax"]:
            kw["ax"] = ax = Axes()
        if call["size"] is not None:
            kw["pixel_size_in"] = call["size"]
        hist.append({k: v for k, v in call.items() if k != "size"})
        what = "plot_dag after %r" % hist
        n = len(FIGURES)
        kw0 = copy.deepcopy(call["kw"])
        res = ask(ctx, what, est.plot_dag, **kw)
        ctx.require(call["kw"] is None or kw["plot_structure_kwargs"] == kw0, lambda: "%s changed the plotting arguments to %r" % (what, kw["plot_structure_kwargs"]))
        ctx.require(est.graph_ is obj and graph_state(est.graph_) == before, lambda: "%s changed the learned graph" % what)
        ref = obj.copy()
        if call["enforce"]:
            ref.threshold_till_dag()
            cut = cut or ref.number_of_edges() < len(before[1])
        style = call["kw"] or {"graph_attributes": {"scale": "0.5"}, "all_node_attributes": plots.NODE_STYLE.WEAK, "all_edge_attributes": plots.EDGE_STYLE.WEAK}
        want = content(plots.plot_structure(ref, **style), style.get("prog", "neato"))
        ctx.require([v for v, _ in want[0]] == sorted(map(str, before[0])) and [e for e, _ in want[1]] == sorted((str(u), str(v)) for u, v in ref.edges), "%s: the reference plot is incomplete" % what)
        kind = "ipython" if call["mpl"] is False else "mpl"
        if kind == "ipython":
            ctx.require(ax is None or not ax.calls, "%s draws on the axes although matplotlib was declined" % what)
            ax = None
        check_shown(ctx, res, want, kind, ax, 0.01 if call["size"] is None else call["size"], what, n)
        ctx.label(kind)
    ctx.label("edges removed to make it acyclic", cut)
    ctx.nontrivial(cut or len(c["calls"]) > 1)
    IMAGES.clear()
    FIGURES.clear()


# ---------------------------------------------------------------- missing packages
@st.composite
def missing_case(draw):
    return {"mpl": draw(st.booleans()), "ipython": draw(st.booleans()), "graphviz": draw(st.booleans()), "prog": draw(PROGS), "n": draw(st.integers(2, 4))}


def fresh(name):
    """A second copy of a module, imported under the present set of packages."""
    path = os.path.join(core.REPO, "causalnex", "plots", name + ".py")
    spec = importlib.util.spec_from_file_location("causalnex.plots._vf_" + name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def check_missing(c, ctx):
    display()
    SM = mods.get("structure.structuremodel").StructureModel
    sm = SM()
    sm.add_edges_from([("a%d" % k, "a%d" % (k + 1)) for k in range(c["n"])])
    names = ("matplotlib", "matplotlib.pyplot", "matplotlib.image", "matplotlib.axes", "matplotlib.figure", "IPython", "IPython.display", "pygraphviz", "pygraphviz.agraph")
    saved = {k: sys.modules.get(k) for k in names}
    try:
        viz = mods.get("plots.plots").plot_structure(sm)
        install(mpl=c["mpl"], ipython=c["ipython"])
        if not c["graphviz"]:
            sys.modules["pygraphviz"] = sys.modules["pygraphviz.agraph"] = None
        what = "with %s" % ", ".join("%s %s" % (k, "installed" if c[k] else "missing") for k in ("mpl", "ipython", "graphviz"))
        d, p = fresh("display"), fresh("plots")
        kw = {} if c["prog"] is None else {"prog": c["prog"]}
        if c["graphviz"]:
            g = p.plot_structure(sm, **kw)
            ctx.require(len(g.nodes()) == c["n"] + 1, "%s: the plot has nodes %r" % (what, g.nodes()))
        else:
            expect_raises(ctx, (Warning,), lambda: p.plot_structure(sm, **kw), "%s, plot_structure" % what)
        for kind, fn, have in (("mpl", d.display_plot_mpl, c["mpl"]), ("ipython", d.display_plot_ipython, c["ipython"])):
            if have:
                check_shown(ctx, ask(ctx, what, fn, viz, **kw), content(viz, c["prog"] or "neato"), kind, None, 0.01, "%s, %s" % (what, fn.__name__), 0)
            else:
                expect_raises(ctx, (ImportError,), lambda: fn(viz, **kw), "%s, %s" % (what, fn.__name__))
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        IMAGES.clear()
        FIGURES.clear()
    ctx.nontrivial(not (c["mpl"] and c["ipython"] and c["graphviz"]))


PROPS = {"P03": lambda: Prop("P03", [Leg("display", shown_case, check_shown_case, 2400), Leg("fitted estimators", est_case, check_est_plot, 1200, cpu_limit=120), Leg("missing packages", missing_case, check_missing, 160)], "")}
