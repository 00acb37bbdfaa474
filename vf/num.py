"""Numeric oracles for structure learning."""
import numpy as np
from scipy.linalg import expm


def h_value(W):
    return float(np.trace(expm(W * W)) - len(W))


class Optimum:
    """Compares learned weights with the exact minimum of sum_j 0.5/n |y_j - A_j w_j|^2 + sum pen |w_j|.

    The learner stops on a relative decrease of the *total* objective, so totals are compared.  The slack, relative
    to the objective of zero weights, is several times what the pinned optimiser was measured to need on the fourth
    best of thirteen neighbouring data sets: 6.3e-6 without the non-smooth penalty (1.4e-8 on well
    conditioned data); with it, 3.5e-4 on well
    conditioned data and 2.5e-3 on others (far from centred, say)."""

    def __init__(self):
        self.f = self.best = self.f0 = 0.0
        self.lo, self.hi = np.inf, 0.0
        self.penalised = False
        self.rows = []

    def add(self, A, y, pen, w, penalised=False):
        n = len(y)

        def obj(v):
            r = y - A @ v
            return float(0.5 / n * (r @ r) + (pen * np.abs(v)).sum())
        best = cd_lasso(A, y, pen) if pen.any() else np.linalg.lstsq(A, y, rcond=None)[0]
        self.penalised = self.penalised or penalised or bool(pen.any())
        self.f += obj(w)
        self.best += obj(best)
        self.f0 += obj(np.zeros(len(w)))
        if A.shape[1]:
            ev = np.linalg.eigvalsh(A.T @ A / n)
            self.lo, self.hi = min(self.lo, ev[0]), max(self.hi, ev[-1])
        self.rows.append((np.round(w, 6).tolist(), np.round(best, 6).tolist()))

    def tolerance(self):
        good, poor = (1e-3, 8e-3) if self.penalised else (1e-6, 5e-5)
        slack = good if self.well_conditioned() else poor
        return slack * self.f0 + 1e-7

    def well_conditioned(self):
        return self.hi <= 60 * self.lo

    def ok(self):
        return self.f <= self.best + self.tolerance()

    def text(self):
        return "objective %.9g, minimum %.9g, slack %.3g; (learned, optimal) weights per variable: %s" % (self.f, self.best, self.tolerance(), self.rows)


def cd_lasso(A, y, pen, iters=20000):
    """Coordinate descent run until the duality gap is negligible."""
    n, k = A.shape
    G = A.T @ A / n
    b = A.T @ y / n
    yy = y @ y / n
    w = np.zeros(k)
    best = None
    for it in range(iters):
        for j in range(k):
            if G[j, j] <= 0:
                w[j] = 0
                continue
            z = b[j] - G[j] @ w + G[j, j] * w[j]
            w[j] = np.sign(z) * max(abs(z) - pen[j], 0) / G[j, j]
        if it % 50 == 49:
            f = 0.5 * (yy - 2 * b @ w + w @ G @ w) + (pen * np.abs(w)).sum()
            if best is not None and best - f <= 1e-10 * max(1.0, f):
                break
            best = f
    return w


def neighbours(X):
    """Twelve data sets like X, each with one or two rows replaced by other rows (same size, dtype and range).

    L-BFGS-B sometimes stops on a tiny step short of the minimum (by up to 6e-4 of the objective, once in 30000 data
    sets by much more); that is a coincidence of one trajectory, whereas a wrong objective or gradient is wrong on
    the neighbouring data too."""
    n = len(X)
    r = np.random.RandomState(0)
    for k in range(12):
        Y = np.array(X)
        for a, b in r.randint(n, size=(1 if k < 4 else 2, 2)):
            Y[a] = X[b]
        yield Y


def confirmed(ok, *arrays):
    """ok() of at least three neighbouring data sets."""
    n = 0
    for data in zip(*[neighbours(a) for a in arrays]):
        n += bool(ok(*data))
        if n == 3:
            return True
    return False


def same_edges(a, b, skip=None, tol=1e-6):
    """Equal edge sets with equal weights; edges that differ in presence are tolerated if `skip(weight)`
    (or, without it, if their weight is negligible)."""
    skip = skip or (lambda w: abs(w) < 1e-9)
    for k in set(a) | set(b):
        if k in a and k in b:
            if not (a[k] == b[k] or abs(a[k] - b[k]) <= tol * max(1.0, abs(b[k]))):
                return False
        elif not skip(a.get(k, b.get(k))):
            return False
    return True
