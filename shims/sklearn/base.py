import inspect

import numpy as np
from _gap import gap, module_getattr

__getattr__ = module_getattr("sklearn.base")


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p.name for p in sig.parameters.values() if p.name != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))

    def get_params(self, deep=True):
        out = {}
        for k in self._get_param_names():
            v = getattr(self, k, None)  # 0.20-0.22: missing attributes read as None
            if deep and hasattr(v, "get_params") and not isinstance(v, type):
                out.update((k + "__" + kk, vv) for kk, vv in v.get_params().items())
            out[k] = v
        return out

    def set_params(self, **params):
        for k, v in params.items():
            if k not in self._get_param_names():
                raise ValueError("Invalid parameter %s for estimator %s" % (k, self))
            setattr(self, k, v)
        return self

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % kv for kv in self.get_params(False).items()))


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        if sample_weight is not None:
            gap("score with sample weights")
        return float(np.mean(np.asarray(y) == np.asarray(self.predict(X))))


class RegressorMixin:
    _estimator_type = "regressor"

    def score(self, X, y, sample_weight=None):
        if sample_weight is not None:
            gap("score with sample weights")
        y, p = np.asarray(y, dtype=float), np.asarray(self.predict(X), dtype=float)
        den = ((y - y.mean()) ** 2).sum()
        return float(1 - ((y - p) ** 2).sum() / den) if den else (1.0 if not ((y - p) ** 2).sum() else 0.0)


def clone(est, safe=True):
    import copy
    params = {}
    for k, v in est.get_params(False).items():
        params[k] = clone(v) if hasattr(v, "get_params") and not isinstance(v, type) else copy.deepcopy(v)
    new = type(est)(**params)
    got = new.get_params(False)
    for k, v in params.items():
        if got[k] is not v:
            raise RuntimeError("Cannot clone object %r, as the constructor either does not set or modifies parameter %s" % (est, k))
    return new
