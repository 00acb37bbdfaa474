import torch
from _gap import module_getattr

__getattr__ = module_getattr("torch.nn.init")


def _fill(f):
    def g(t, *a):
        with torch.no_grad():
            f(t, *a)
        return t
    return g


zeros_ = _fill(lambda t: t.fill_(0.0))
ones_ = _fill(lambda t: t.fill_(1.0))
constant_ = _fill(lambda t, v: t.fill_(v))


def uniform_(t, a=0.0, b=1.0):
    with torch.no_grad():
        return t.uniform_(a, b)


def normal_(t, mean=0.0, std=1.0):
    with torch.no_grad():
        return t.normal_(mean, std)
