import numpy as np
import torch
from _gap import Gap, module_getattr

__getattr__ = module_getattr("torch.nn.functional")
softmax = torch.softmax
log_softmax = torch.log_softmax
sigmoid = torch.sigmoid
relu = torch.relu
tanh = torch.tanh


def softplus(x):
    return torch.softplus_(x)


def logsigmoid(x):
    return -torch.softplus_(-x)


def _reduce(x, reduction):
    if reduction == "mean":
        return torch.mean(x)
    if reduction == "sum":
        return torch.sum(x)
    if reduction == "none":
        return x
    raise ValueError("%s is not a valid value for reduction" % reduction)


def linear(x, weight, bias=None):
    out = torch.matmul(x, weight.t())
    return out if bias is None else out + bias


def layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    n = len(normalized_shape)
    if tuple(x.shape[-n:]) != tuple(normalized_shape):
        raise RuntimeError("Given normalized_shape=%s, expected input with shape [*, %s]" % (list(normalized_shape), list(normalized_shape)))
    a = x._a
    ax = tuple(range(a.ndim - n, a.ndim))
    m = a.mean(axis=ax, keepdims=True)
    d = a - m
    inv = 1 / np.sqrt((d * d).mean(axis=ax, keepdims=True) + np.asarray(eps, dtype=a.dtype))
    y = (d * inv).astype(a.dtype)

    def fn(g):
        return [inv * (g - g.mean(axis=ax, keepdims=True) - y * (g * y).mean(axis=ax, keepdims=True))]
    out = torch._op(y, [x], fn, name="LayerNorm")
    if weight is not None:
        out = out * weight
    if bias is not None:
        out = out + bias
    return out


def binary_cross_entropy_with_logits(input, target, weight=None, size_average=None, reduce=None, reduction="mean", pos_weight=None):
    if weight is not None or pos_weight is not None or size_average is not None or reduce is not None:
        raise Gap("torch: weighted binary_cross_entropy_with_logits")
    if target.shape != input.shape:
        raise ValueError("Target size (%s) must be the same as input size (%s)" % (target.shape, input.shape))
    # (1 - t) * x + softplus(-x)
    return _reduce((1 - target) * input + torch.softplus_(-input), reduction)


def nll_loss(input, target, weight=None, reduction="mean", **kw):
    if weight is not None or kw:
        raise Gap("torch: nll_loss options")
    if target.dtype != torch.int64:
        raise RuntimeError("expected scalar type Long but found %s" % target.dtype)
    if input.dim() != 2 or target.dim() != 1:
        raise Gap("torch: nll_loss on other shapes")
    if target._a.size and (target._a.min() < 0 or target._a.max() >= input.shape[1]):
        raise IndexError("Target %d is out of bounds." % target._a.max())
    return _reduce(-torch.gather(input, 1, target.unsqueeze(1)).squeeze(1), reduction)


def cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    if weight is not None or size_average is not None or reduce is not None:
        raise Gap("torch: cross_entropy options")
    return nll_loss(torch.log_softmax(input, 1), target, reduction=reduction)


def poisson_nll_loss(input, target, log_input=True, full=False, size_average=None, eps=1e-8, reduce=None, reduction="mean"):
    if size_average is not None or reduce is not None:
        raise Gap("torch: poisson_nll_loss options")
    if log_input:
        ret = torch.exp(input) - target * input
    else:
        ret = input - target * torch.log(input + eps)
    if full:
        ta = target._a
        with np.errstate(all="ignore"):
            st = np.where(ta > 1, ta * np.log(ta) - ta + 0.5 * np.log(2 * np.pi * ta), 0).astype(ta.dtype)
        ret = ret + torch.Tensor(_a=st)
    return _reduce(ret, reduction)


def mse_loss(input, target, reduction="mean"):
    d = input - target
    return _reduce(d * d, reduction)


def l1_loss(input, target, reduction="mean"):
    return _reduce(torch.abs(input - target), reduction)


def one_hot(t, num_classes=-1):
    n = int(t._a.max()) + 1 if num_classes == -1 else num_classes
    return torch.Tensor(_a=np.eye(n, dtype=np.int64)[t._a])
