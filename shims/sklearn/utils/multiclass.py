import numpy as np
from _gap import gap, module_getattr

__getattr__ = module_getattr("sklearn.utils.multiclass")


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y) for y in ys]))


def type_of_target(y):
    y = np.asarray(y)
    if y.ndim > 2 or (y.dtype == object and len(y) and not isinstance(y.flat[0], str)):
        if y.ndim == 1 and all(isinstance(v, (int, float, np.generic)) for v in y):
            return "unknown"
        return "unknown"
    if y.ndim == 2 and y.shape[1] == 0:
        return "unknown"
    if y.ndim == 2 and y.shape[1] > 1:
        gap("type_of_target of a matrix")
    if y.dtype.kind == "f" and np.any(y != y.astype(int)):
        if not np.isfinite(y).all():
            raise ValueError("Input contains NaN, infinity or a value too large for dtype('%s')." % y.dtype)
        return "continuous"
    return "multiclass" if len(np.unique(y)) > 2 else "binary"


def check_classification_targets(y):
    t = type_of_target(y)
    if t not in ("binary", "multiclass", "multiclass-multioutput", "multilabel-indicator", "multilabel-sequences"):
        raise ValueError("Unknown label type: %r" % t)
