"""check_array and friends as in scikit-learn 0.20-0.22, for dense numeric input."""
import numpy as np
from _gap import gap, module_getattr
from sklearn.exceptions import NotFittedError

__getattr__ = module_getattr("sklearn.utils.validation")


def check_array(array, accept_sparse=False, dtype="numeric", force_all_finite=True, ensure_2d=True,
                ensure_min_samples=1, ensure_min_features=1, copy=False, **kw):
    if kw or accept_sparse or dtype not in ("numeric", None):
        gap("check_array(%r)" % (sorted(kw),))
    a = np.asarray(array)
    if ensure_2d:
        if a.ndim == 0:
            raise ValueError("Expected 2D array, got scalar array instead:\narray=%s." % a)
        if a.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead:\narray=%s." % a)
    if dtype == "numeric" and a.dtype.kind == "O":
        a = a.astype(np.float64)
    if dtype == "numeric" and a.dtype.kind in "US":
        pass  # a FutureWarning in these versions
    if a.ndim >= 3:
        raise ValueError("Found array with dim %d. Estimator expected <= 2." % a.ndim)
    if force_all_finite is True and a.dtype.kind in "fc" and not np.isfinite(a).all():
        raise ValueError("Input contains NaN, infinity or a value too large for dtype('%s')." % a.dtype)
    if force_all_finite == "allow-nan" and a.dtype.kind in "fc" and np.isinf(a).any():
        raise ValueError("Input contains infinity or a value too large for dtype('%s')." % a.dtype)
    if ensure_min_samples > 0 and (a.shape[0] if a.ndim else 0) < ensure_min_samples:
        raise ValueError("Found array with %d sample(s) (shape=%s) while a minimum of %d is required." % (a.shape[0], a.shape, ensure_min_samples))
    if ensure_min_features > 0 and a.ndim == 2 and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with %d feature(s) (shape=%s) while a minimum of %d is required." % (a.shape[1], a.shape, ensure_min_features))
    return a.copy() if copy and a is array else a


def column_or_1d(y, warn=False):
    y = np.asarray(y)
    if y.ndim == 1:
        return np.ravel(y)
    if y.ndim == 2 and y.shape[1] == 1:
        return np.ravel(y)
    raise ValueError("bad input shape %s" % (y.shape,))


def check_consistent_length(*arrays):
    n = {len(a) for a in arrays if a is not None}
    if len(n) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(a) for a in arrays])


def check_X_y(X, y, y_numeric=False, multi_output=False, **kw):
    if kw or multi_output:
        gap("check_X_y options")
    if y is None:
        raise ValueError("y cannot be None")
    X = check_array(X)
    y = column_or_1d(y, warn=True)
    if y.dtype.kind in "fc" and not np.isfinite(y).all():
        raise ValueError("Input contains NaN, infinity or a value too large for dtype('%s')." % y.dtype)
    if y_numeric and y.dtype.kind == "O":
        y = y.astype(np.float64)
    check_consistent_length(X, y)
    return X, y


def check_is_fitted(estimator, attributes=None, msg=None, all_or_any=all):
    if attributes is not None:
        attrs = [attributes] if isinstance(attributes, str) else attributes
        fitted = all_or_any([hasattr(estimator, a) for a in attrs])
    else:
        fitted = any((v.endswith("_") or v.startswith("_")) and not v.startswith("__") and v.endswith("_") for v in vars(estimator))
    if not fitted:
        raise NotFittedError("This %s instance is not fitted yet. Call 'fit' with appropriate arguments before using this method." % type(estimator).__name__)
