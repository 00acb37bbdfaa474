"""Float64 reference for the generalised linear models the pytorch learner fits.

Column kinds: cont (squared error / 2), bin (logistic), poiss (Poisson with log link, no constant), cat (softmax over
one column per class), ord (cumulative logit with the observed log cumulative odds as cut points)."""
import numpy as np
from scipy.optimize import minimize
from scipy.special import expit, gammaln, logsumexp  # noqa: F401


def sig(z):
    return expit(z)


class Group:
    """One original column: its kind, position, columns after expansion and classes."""

    def __init__(self, kind, idx, col):
        self.kind, self.idx = kind, idx
        self.cols = [idx]
        self.classes = None
        self.cuts = None
        if kind in ("cat", "ord"):
            self.classes, counts = np.unique(col, return_counts=True)
            if kind == "ord":
                c = np.cumsum(counts)[:-1] / float(counts.sum())
                self.cuts = np.log(c / (1 - c))


def expand(X, schema):
    """schema: list of (column, kind) in processing order.  Returns (expanded float64 matrix, groups)."""
    X = np.asarray(X)
    Xe = X.astype(float).copy()
    groups = []
    for idx, kind in schema:
        g = Group(kind, idx, X[:, idx])
        if kind == "cat":
            onehot = (X[:, [idx]] == g.classes[None, :]).astype(float)
            g.cols = [idx] + list(range(Xe.shape[1], Xe.shape[1] + len(g.classes) - 1))
            Xe[:, idx] = onehot[:, 0]
            Xe = np.hstack([Xe, onehot[:, 1:]])
        elif kind == "ord":
            Xe[:, idx] = np.searchsorted(g.classes, X[:, idx])
        groups.append(g)
    return Xe, groups


def ord_probs(g, z):
    cum = sig(g.cuts[None, :] - z[:, None])
    cum = np.hstack([np.zeros((len(z), 1)), cum, np.ones((len(z), 1))])
    return np.diff(cum, axis=1)


def loss(g, Xe, Z, grad=False):
    """Mean negative log likelihood of one group given the linear predictors Z (n x columns of Xe)."""
    n = len(Xe)
    if g.kind == "cat":
        z, t = Z[:, g.cols], Xe[:, g.cols]
        # the class is the largest entry of the one-hot row
        t = np.eye(len(g.cols))[np.argmax(t, axis=1)]
        ls = logsumexp(z, axis=1)
        f = float(np.mean(ls - (z * t).sum(1)))
        return (f, (np.exp(z - ls[:, None]) - t) / n) if grad else f
    z, t = Z[:, g.idx], Xe[:, g.idx]
    if g.kind == "cont":
        r = z - t
        f, d = 0.5 * float(np.mean(r * r)), r
    elif g.kind == "bin":
        f, d = float(np.mean(np.logaddexp(0, z) - t * z)), sig(z) - t
    elif g.kind == "poiss":
        with np.errstate(over="ignore"):
            e = np.exp(z)
        f, d = float(np.mean(e - t * z)), e - t
    else:
        k = t.astype(int)
        hi = np.append(g.cuts, np.inf)[k] - z
        lo = np.append(-np.inf, g.cuts)[k] - z
        # log(sig(hi) - sig(lo)) without cancellation
        la, lb = np.minimum(hi, 0) - np.log1p(np.exp(-np.abs(hi))), np.minimum(lo, 0) - np.log1p(np.exp(-np.abs(lo)))
        # sig(hi)-sig(lo) = sig(hi)*sig(-lo)*(1-exp(lo-hi))
        lnb = np.minimum(-lo, 0) - np.log1p(np.exp(-np.abs(lo)))
        with np.errstate(divide="ignore", invalid="ignore"):
            gap = np.where(np.isfinite(hi) & np.isfinite(lo), np.log1p(-np.exp(np.where(np.isfinite(hi) & np.isfinite(lo), lo - hi, -1))), 0.0)
        f = float(-np.mean(la + lnb + gap))
        # d/dz of -log p = 1 - sig(hi) - sig(lo)  ... (sign: dp/dz = -(hi') + (lo'))
        d = 1 - sig(hi) - sig(lo)
    return (f, (d / n)[:, None]) if grad else f


def predictors(Xe, W, b):
    return Xe @ W + b[None, :]


def objective(groups, Xe, W, b, l1, l2):
    d = Xe.shape[1]
    Z = predictors(Xe, W, b)
    return sum(loss(g, Xe, Z) for g in groups) + l1 * np.abs(W).sum() / d + 0.5 * l2 * (W * W).sum() / d


def optimum(groups, Xe, allowed, l1, l2, bias):
    """Minimum of the penalised objective over the allowed weights (a convex problem per group)."""
    n, d = Xe.shape
    W, b = np.zeros((d, d)), np.zeros(d)
    for g in groups:
        k = len(g.cols)
        pa = np.where(allowed[:, g.cols].any(axis=1))[0]
        mask = allowed[np.ix_(pa, g.cols)]
        A = Xe[:, pa]
        m = len(pa) * k
        split = l1 > 0

        def fun(v):
            w = (v[:m] - v[m:2 * m]) if split else v[:m]
            w = w.reshape(len(pa), k) * mask
            c = v[-k:] if bias else np.zeros(k)
            Z = np.zeros((n, d))
            Z[:, g.cols] = A @ w + c
            f, gz = loss(g, Xe, Z, grad=True)
            gw = (A.T @ gz + l2 * w / d) * mask
            f += 0.5 * l2 * (w * w).sum() / d
            parts = []
            if split:
                f += l1 * v[:2 * m].sum() / d
                parts = [gw.ravel() + l1 / d, -gw.ravel() + l1 / d]
            else:
                parts = [gw.ravel()]
            if bias:
                parts.append(gz.sum(axis=0))
            if not np.isfinite(f):
                f = 1e300
            return f, np.nan_to_num(np.concatenate(parts)) if parts else np.zeros(0)
        size = (2 * m if split else m) + (k if bias else 0)
        if size:
            bounds = ([(0, None)] * (2 * m) if split else [(None, None)] * m) + [(None, None)] * (k if bias else 0)
            v = np.zeros(size)
            for _ in range(3):
                v = minimize(fun, v, jac=True, method="L-BFGS-B", bounds=bounds, options={"maxiter": 3000, "maxfun": 6000, "ftol": 1e-15, "gtol": 1e-9, "maxls": 50}).x
            w = (v[:m] - v[m:2 * m]) if split else v[:m]
            W[np.ix_(pa, g.cols)] = w.reshape(len(pa), k) * mask
            if bias:
                b[g.cols] = v[-k:]
    return W, b


def h_poly(W, groups):
    """tr (I + S/d)^d - d of the squared weights, the expanded columns of a variable superimposed on its first one."""
    S = W * W
    S = S.copy()
    for g in groups:
        if len(g.cols) > 1:
            S[g.cols[0], :] += S[g.cols[1:], :].sum(axis=0)
            S[:, g.cols[0]] += S[:, g.cols[1:]].sum(axis=1)
    d = max(g.idx for g in groups) + 1
    S = S[:d, :d]
    return float(np.trace(np.linalg.matrix_power(np.eye(d) + S / d, d)) - d)


def collapse(A, groups):
    """Summed weights between original columns."""
    d = max(g.idx for g in groups) + 1
    own = {}
    for g in groups:
        for c in g.cols:
            own[c] = g.idx
    out = np.zeros((d, d))
    for i in range(len(A)):
        for j in range(len(A)):
            out[own[i], own[j]] += A[i, j]
    return out


def link(groups, Z, only=None):
    """Linear predictors to predicted means / probabilities (not for ord)."""
    Z = np.array(Z, dtype=float)
    for g in groups:
        if only is not None and g is not only:
            continue
        if g.kind == "bin":
            Z[:, g.idx] = sig(Z[:, g.idx])
        elif g.kind == "poiss":
            with np.errstate(over="ignore"):
                Z[:, g.idx] = np.exp(Z[:, g.idx])
        elif g.kind == "cat":
            z = Z[:, g.cols]
            Z[:, g.cols] = np.exp(z - logsumexp(z, axis=1)[:, None])
    return Z
