import math
from collections import OrderedDict

import numpy as np
import torch
from _gap import Gap, module_getattr
from torch import Parameter, Tensor

import importlib

functional = importlib.import_module("torch.nn.functional")
init = importlib.import_module("torch.nn.init")



__getattr__ = module_getattr("torch.nn")


class Module:
    def __init__(self):
        d = self.__dict__
        d["training"] = True
        d["_parameters"] = OrderedDict()
        d["_buffers"] = OrderedDict()
        d["_modules"] = OrderedDict()

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_parameters" not in d:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            d.pop(k, None)
            d["_modules"].pop(k, None)
            d["_parameters"][k] = v
        elif isinstance(v, Module):
            if "_modules" not in d:
                raise AttributeError("cannot assign module before Module.__init__() call")
            d.pop(k, None)
            d["_parameters"].pop(k, None)
            d["_modules"][k] = v
        elif k in d.get("_parameters", ()):
            if v is not None:
                raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v).__name__, k))
            d["_parameters"][k] = None
        elif k in d.get("_modules", ()):
            if v is not None:
                raise TypeError("cannot assign as child module")
            d["_modules"][k] = None
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for kind in ("_parameters", "_buffers", "_modules"):
            if kind in d and k in d[kind]:
                return d[kind][k]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, k))

    def __delattr__(self, k):
        for kind in ("_parameters", "_buffers", "_modules"):
            if k in self.__dict__[kind]:
                del self.__dict__[kind][k]
                return
        object.__delattr__(self, k)

    def register_parameter(self, name, p):
        self._parameters[name] = p

    def register_buffer(self, name, t, persistent=True):
        self._buffers[name] = t

    def add_module(self, name, m):
        self._modules[name] = m

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(k, m) for k, m in self._modules.items() if m is not None])

    def modules(self):
        yield self
        for m in self.children():
            yield from m.modules()

    def named_parameters(self, prefix="", recurse=True):
        seen = set()

        def walk(m, pre):
            for k, p in m._parameters.items():
                if p is not None and id(p) not in seen:
                    seen.add(id(p))
                    yield pre + k, p
            if recurse:
                for k, c in m._modules.items():
                    if c is not None:
                        yield from walk(c, pre + k + ".")
        return walk(self, prefix + "." if prefix else "")

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def state_dict(self):
        return OrderedDict((k, p.detach()) for k, p in self.named_parameters())

    def zero_grad(self):
        for p in self.parameters():
            if p.grad is not None:
                p.grad.zero_()

    def train(self, mode=True):
        for m in self.modules():
            object.__setattr__(m, "training", mode)
        return self

    def eval(self):
        return self.train(False)

    def _apply(self, f):
        for p in self.parameters():
            p.data = f(p.data)
            if p.grad is not None:
                p.grad = f(p.grad)
        return self

    def float(self):
        return self._apply(lambda t: t.float())

    def double(self):
        return self._apply(lambda t: t.double())

    def to(self, *a, **k):
        return self._apply(lambda t: t.to(*a, **k))

    def cpu(self):
        return self

    def apply(self, fn):
        for m in self.children():
            m.apply(fn)
        fn(self)
        return self

    def forward(self, *a, **k):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def extra_repr(self):
        return ""

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.extra_repr())


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        for m in modules or []:
            self.append(m)

    def append(self, m):
        self.add_module(str(len(self._modules)), m)
        return self

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ModuleList(list(self._modules.values())[i])
        return list(self._modules.values())[i]


class Sequential(Module):
    def __init__(self, *mods):
        super().__init__()
        for i, m in enumerate(mods):
            self.add_module(str(i), m)

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(Tensor(out_features, in_features))
        if bias:
            self.bias = Parameter(Tensor(out_features))
        else:
            self.register_parameter("bias", None)
        self.reset_parameters()

    def reset_parameters(self):
        bound = 1 / math.sqrt(self.in_features) if self.in_features else 0.0
        with torch.no_grad():
            self.weight.uniform_(-bound, bound)
            if self.bias is not None:
                self.bias.uniform_(-bound, bound)

    def forward(self, x):
        return functional.linear(x, self.weight, self.bias)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        if isinstance(normalized_shape, (int, np.integer)):
            normalized_shape = (int(normalized_shape),)
        self.normalized_shape, self.eps, self.elementwise_affine = tuple(normalized_shape), eps, elementwise_affine
        if elementwise_affine:
            self.weight = Parameter(torch.ones(*self.normalized_shape))
            self.bias = Parameter(torch.zeros(*self.normalized_shape))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, x):
        return functional.layer_norm(x, self.normalized_shape, self.weight, self.bias, self.eps)


class Sigmoid(Module):
    def forward(self, x):
        return torch.sigmoid(x)


class ReLU(Module):
    def forward(self, x):
        return torch.relu(x)


class Tanh(Module):
    def forward(self, x):
        return torch.tanh(x)


class Identity(Module):
    def forward(self, x):
        return x


class _Loss(Module):
    f = None

    def __init__(self, **kw):
        super().__init__()
        object.__setattr__(self, "kw", kw)

    def forward(self, input, target):
        return type(self).f(input, target, **self.kw)


class CrossEntropyLoss(_Loss):
    f = staticmethod(functional.cross_entropy)


class BCEWithLogitsLoss(_Loss):
    f = staticmethod(functional.binary_cross_entropy_with_logits)


class PoissonNLLLoss(_Loss):
    f = staticmethod(functional.poisson_nll_loss)


class MSELoss(_Loss):
    f = staticmethod(functional.mse_loss)
