"""roc_curve, auc and classification_report from their definitions."""
import numpy as np

from _gap import gap, module_getattr

__getattr__ = module_getattr("sklearn.metrics")


def _1d(y):
    a = np.asarray(y)
    if a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    if a.ndim != 1:
        raise ValueError("bad input shape %s" % (a.shape,))
    return a


def roc_curve(y_true, y_score, pos_label=None, sample_weight=None, drop_intermediate=True):
    y, s = _1d(y_true), _1d(y_score).astype(float)
    if len(y) != len(s):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(y), len(s)))
    if np.isnan(s).any():
        raise ValueError("Input contains NaN, infinity or a value too large for dtype('float64').")
    if pos_label is None:
        if len(np.unique(y)) > 2:
            raise ValueError("multiclass format is not supported")
        if not set(np.unique(y)) <= {0, 1, -1}:
            raise ValueError("%s format is not supported" % sorted(set(y)))
        pos_label = 1
    y = y == pos_label
    o = np.argsort(-s, kind="mergesort")
    y, s = y[o], s[o]
    last = np.r_[np.where(np.diff(s))[0], len(s) - 1]
    tp = np.cumsum(y)[last].astype(float)
    fp = 1 + last - tp
    if drop_intermediate and len(fp) > 2:
        keep = np.where(np.r_[True, np.logical_or(np.diff(fp, 2), np.diff(tp, 2)), True])[0]
        fp, tp, last = fp[keep], tp[keep], last[keep]
    tp, fp = np.r_[0, tp], np.r_[0, fp]
    with np.errstate(invalid="ignore", divide="ignore"):
        return fp / fp[-1], tp / tp[-1], np.r_[s[last[0]] + 1, s[last]]


def auc(x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if len(x) < 2:
        raise ValueError("At least 2 points are needed to compute area under curve, but x.shape = %s" % x.shape)
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2.0))


def roc_auc_score(y_true, y_score):
    f, t, _ = roc_curve(y_true, y_score)
    return auc(f, t)


def accuracy_score(y_true, y_pred):
    return float(np.mean(_1d(y_true) == _1d(y_pred)))


def classification_report(y_true, y_pred, labels=None, target_names=None, sample_weight=None, digits=2, output_dict=False,
                          zero_division="warn"):
    y, p = list(_1d(y_true)), list(_1d(y_pred))
    if len(y) != len(p):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(y), len(p)))
    if len({isinstance(v, str) for v in y + p}) > 1:
        raise ValueError("Mix of label input types (string and number)")
    given = labels is not None
    labels = list(labels) if given else sorted(set(y) | set(p))
    names = [str(v) for v in labels] if target_names is None else list(target_names)
    if len(names) != len(labels):
        raise ValueError("Number of classes, %d, does not match size of target_names, %d." % (len(labels), len(names)))

    def prf(tp, pr, su):
        a = tp / pr if pr else 0.0
        b = tp / su if su else 0.0
        return a, b, (2 * a * b / (a + b) if a + b else 0.0)
    if not output_dict:
        return "a report as text"
    rep, rows = {}, []
    for lab, n in zip(labels, names):
        tp = sum(a == lab and b == lab for a, b in zip(y, p))
        pr = sum(b == lab for b in p)
        su = sum(a == lab for a in y)
        r = prf(tp, pr, su) + (su,)
        rows.append((tp, pr, su) + r)
        rep[n] = dict(zip(("precision", "recall", "f1-score", "support"), r))
    tp, pr, su = (sum(r[i] for r in rows) for i in range(3))
    if not given or set(labels) >= set(y) | set(p):
        rep["accuracy"] = tp / su if su else 0.0
    else:
        rep["micro avg"] = dict(zip(("precision", "recall", "f1-score", "support"), prf(tp, pr, su) + (su,)))
    k = len(rows)
    rep["macro avg"] = dict(zip(("precision", "recall", "f1-score", "support"), tuple(sum(r[i] for r in rows) / k for i in (3, 4, 5)) + (su,)))
    rep["weighted avg"] = dict(zip(("precision", "recall", "f1-score", "support"),
                                   tuple(sum(r[i] * r[2] for r in rows) / su if su else 0.0 for i in (3, 4, 5)) + (su,)))
    return rep
