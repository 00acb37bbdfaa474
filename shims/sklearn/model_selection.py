import numpy as np
from _gap import gap, module_getattr
from sklearn.base import clone

__getattr__ = module_getattr("sklearn.model_selection")


class KFold:
    def __init__(self, n_splits=5, shuffle=False, random_state=None):
        self.n_splits, self.shuffle, self.random_state = n_splits, shuffle, random_state

    def split(self, X, y=None):
        n = len(X)
        idx = np.arange(n)
        if self.shuffle:
            np.random.RandomState(self.random_state).shuffle(idx)
        for part in np.array_split(idx, self.n_splits):
            mask = np.zeros(n, dtype=bool)
            mask[part] = True
            yield np.flatnonzero(~mask), np.flatnonzero(mask)


def cross_val_score(est, X, y, cv=None):
    out = []
    for tr, te in (cv or KFold()).split(X):
        get = lambda d, i: d.iloc[i] if hasattr(d, "iloc") else d[i]
        out.append(clone(est).fit(get(X, tr), get(y, tr)).score(get(X, te), get(y, te)))
    return np.array(out)
