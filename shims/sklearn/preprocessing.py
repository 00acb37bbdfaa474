"""OneHotEncoder, OrdinalEncoder, LabelEncoder and StandardScaler as in scikit-learn 0.20-0.22 (dense, default options)."""
import numpy as np
from _gap import gap, module_getattr
from sklearn.base import BaseEstimator, TransformerMixin
from sklearn.exceptions import NotFittedError
from sklearn.utils.validation import check_array, column_or_1d

__getattr__ = module_getattr("sklearn.preprocessing")


class _Encoder(TransformerMixin, BaseEstimator):
    def _fit(self, X):
        X = check_array(X)
        self.categories_ = [np.unique(X[:, j]) for j in range(X.shape[1])]
        return self

    def _codes(self, X):
        if not hasattr(self, "categories_"):
            raise NotFittedError("This %s instance is not fitted yet." % type(self).__name__)
        X = check_array(X)
        if X.shape[1] != len(self.categories_):
            raise ValueError("The number of features %d is different to the number of features of the fitted data %d." % (X.shape[1], len(self.categories_)))
        out = np.zeros(X.shape, dtype=int)
        for j, cats in enumerate(self.categories_):
            pos = np.searchsorted(cats, X[:, j])
            ok = cats[np.minimum(pos, len(cats) - 1)] == X[:, j]
            if not ok.all():
                raise ValueError("Found unknown categories %s in column %d during transform" % (sorted(set(X[~ok, j].tolist())), j))
            out[:, j] = pos
        return out


class OneHotEncoder(_Encoder):
    def __init__(self, n_values=None, categorical_features=None, categories="auto", drop=None, sparse=True, dtype=np.float64, handle_unknown="error"):
        self.n_values, self.categorical_features, self.categories, self.drop = n_values, categorical_features, categories, drop
        self.sparse, self.dtype, self.handle_unknown = sparse, dtype, handle_unknown

    def fit(self, X, y=None):
        if self.categories not in ("auto", None) or self.drop is not None or self.handle_unknown != "error" or self.sparse:
            gap("OneHotEncoder options")
        return self._fit(X)

    def transform(self, X):
        codes = self._codes(X)
        return np.hstack([np.eye(len(c), dtype=self.dtype)[codes[:, j]] for j, c in enumerate(self.categories_)])


class OrdinalEncoder(_Encoder):
    def __init__(self, categories="auto", dtype=np.float64):
        self.categories, self.dtype = categories, dtype

    def fit(self, X, y=None):
        if self.categories != "auto":
            gap("OrdinalEncoder options")
        return self._fit(X)

    def transform(self, X):
        return self._codes(X).astype(self.dtype)


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(column_or_1d(y, warn=True))
        return self

    def fit_transform(self, y):
        self.classes_, codes = np.unique(column_or_1d(y, warn=True), return_inverse=True)
        return codes

    def transform(self, y):
        if not hasattr(self, "classes_"):
            raise NotFittedError("This LabelEncoder instance is not fitted yet.")
        y = column_or_1d(y, warn=True)
        if len(y) == 0:
            return np.array([])
        bad = np.setdiff1d(y, self.classes_)
        if len(bad):
            raise ValueError("y contains previously unseen labels: %s" % bad)
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        y = column_or_1d(y, warn=True)
        bad = np.setdiff1d(y, np.arange(len(self.classes_)))
        if len(bad):
            raise ValueError("y contains previously unseen labels: %s" % bad)
        return self.classes_[np.asarray(y)]


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        if not (self.with_mean and self.with_std):
            gap("StandardScaler options")
        X = check_array(X, force_all_finite="allow-nan").astype(np.float64)
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        self.scale_ = np.where(self.var_ == 0, 1.0, np.sqrt(self.var_))
        self.n_samples_seen_ = len(X)
        return self

    def _check(self, X):
        if not hasattr(self, "scale_"):
            raise NotFittedError("This StandardScaler instance is not fitted yet.")
        X = check_array(X, force_all_finite="allow-nan").astype(np.float64)
        if X.shape[1] != len(self.mean_):
            raise ValueError("operands could not be broadcast together with shapes %s %s" % (X.shape, self.mean_.shape))
        return X

    def transform(self, X, copy=None):
        return (self._check(X) - self.mean_) / self.scale_

    def inverse_transform(self, X, copy=None):
        if not hasattr(self, "scale_"):
            raise NotFittedError("This StandardScaler instance is not fitted yet.")
        return np.asarray(X, dtype=np.float64) * self.scale_ + self.mean_
