"""A small stand-in for the part of PyTorch 1.7 this repository uses: CPU tensors over NumPy with reverse-mode
automatic differentiation. Anything it does not model raises Gap (reported as inconclusive, never as a violation)."""
import builtins
import contextlib
import numbers

import numpy as np

from _gap import Gap, module_getattr

__version__ = "1.7.0"
__getattr__ = module_getattr("torch")

float32 = np.dtype("float32")
float64 = np.dtype("float64")
float = float32
double = float64
int64 = np.dtype("int64")
long = int64
int32 = np.dtype("int32")
uint8 = np.dtype("uint8")
bool = np.dtype("bool")

_pyfloat, _pyint, _pybool = builtins.float, builtins.int, builtins.bool
_default_dtype = float32
_grad_enabled = True
_rng = np.random.Generator(np.random.PCG64(67280421310721))


def get_default_dtype():
    return _default_dtype


def set_default_dtype(d):
    global _default_dtype
    _default_dtype = np.dtype(d)


def manual_seed(seed):
    global _rng
    _rng = np.random.Generator(np.random.PCG64(_pyint(seed) % 2 ** 63))


def is_grad_enabled():
    return _grad_enabled


class _GradMode(contextlib.ContextDecorator):
    def __init__(self, value):
        self.value, self.stack = value, []

    def __enter__(self):
        global _grad_enabled
        self.stack.append(_grad_enabled)
        _grad_enabled = self.value

    def __exit__(self, *a):
        global _grad_enabled
        _grad_enabled = self.stack.pop()
        return False


class no_grad(_GradMode):
    def __init__(self):
        super().__init__(False)


class enable_grad(_GradMode):
    def __init__(self):
        super().__init__(True)


class set_grad_enabled(_GradMode):
    def __init__(self, mode):
        super().__init__(_pybool(mode))


class device:
    def __init__(self, type="cpu", index=None):
        if isinstance(type, device):
            type = type.type
        if type != "cpu":
            raise RuntimeError("no such device here: %r" % (type,))
        self.type, self.index = type, index

    def __eq__(self, other):
        return isinstance(other, device) and other.type == self.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return "device(type='cpu')"


_CPU = device("cpu")


class Size(tuple):
    def numel(self):
        return _pyint(np.prod(self, dtype=np.int64))

    def __repr__(self):
        return "torch.Size(%s)" % list(self)


class _Node:
    """One step of the recorded computation. parents: list of (node or None, shape, dtype); fn(g) -> one gradient per parent."""
    __slots__ = ("parents", "fn", "saved", "leaf", "name", "freed")

    def __init__(self, parents, fn, saved=(), leaf=None, name=""):
        self.parents, self.fn, self.saved, self.leaf, self.name = parents, fn, saved, leaf, name
        self.freed = False


class _Stop(Exception):
    pass


def _unbroadcast(g, shape, dtype):
    if g.shape == shape and g.dtype == dtype:
        return g
    if g.shape != shape:
        extra = g.ndim - len(shape)
        if extra > 0:
            g = g.sum(axis=tuple(range(extra)))
        ax = tuple(i for i, s in enumerate(shape) if s == 1 and g.shape[i] != 1)
        if ax:
            g = g.sum(axis=ax, keepdims=True)
        g = np.broadcast_to(g, shape)
    return g.astype(dtype, copy=False)


class Tensor:
    def __init__(self, *size, _a=None, _base=None, _ver=None):
        if _a is None:
            if len(size) == 1 and isinstance(size[0], (list, np.ndarray, Tensor)) and not isinstance(size[0], Size):
                v = size[0]
                _a = np.array(v._a if isinstance(v, Tensor) else v, dtype=_default_dtype)
            else:
                if len(size) == 1 and isinstance(size[0], (tuple, Size)):
                    size = size[0]
                _a = np.empty([_pyint(s) for s in size], dtype=_default_dtype)
                if _a.dtype.kind == "f":
                    _a.fill(np.nan)  # uninitialised memory: anything computed from it is visible
        d = self.__dict__
        d["_a"] = _a
        d["_fn"] = None
        d["_rg"] = False
        d["grad"] = None
        d["_base"] = _base
        d["_ver"] = _ver if _ver is not None else [0]
        d["_seen"] = d["_ver"][0]
        d["_acc"] = None
        d["_poison"] = False

    # -- basics
    shape = property(lambda s: Size(s._a.shape))
    dtype = property(lambda s: s._a.dtype)
    ndim = property(lambda s: s._a.ndim)
    device = property(lambda s: _CPU)
    is_sparse = property(lambda s: False)
    is_leaf = property(lambda s: s._fn is None)
    grad_fn = property(lambda s: s._fn)

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    def requires_grad_(self, v=True):
        if self._fn is not None:
            if not v:
                raise RuntimeError("you can only change requires_grad flags of leaf variables.")
            return self
        if v and self._a.dtype.kind != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self._rg = _pybool(v)
        return self

    @property
    def data(self):
        return Tensor(_a=self._a, _ver=[0])

    @data.setter
    def data(self, value):
        if not isinstance(value, Tensor):
            raise TypeError("Variable data has to be a tensor, but got %s" % type(value).__name__)
        if value._a.dtype.kind != self._a.dtype.kind:
            raise RuntimeError("incompatible tensor type")
        self._a = value._a
        self._ver = [0]
        self._seen = 0
        self._base = None

    def size(self, dim=None):
        return self.shape if dim is None else self._a.shape[dim]

    def dim(self):
        return self._a.ndim

    ndimension = dim

    def numel(self):
        return _pyint(self._a.size)

    nelement = numel

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self._a.shape[0]

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(self._a.shape[0])])

    def __repr__(self):
        return "tensor(%s%s)" % (np.array2string(self._a, separator=", "), ", requires_grad=True" if self._rg else "")

    def __bool__(self):
        if self._a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return _pybool(self._a.reshape(-1)[0])

    def __float__(self):
        return _pyfloat(self.item())

    def __int__(self):
        return _pyint(self.item())

    def __index__(self):
        if self._a.dtype.kind not in "iub" or self._a.size != 1:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return _pyint(self.item())

    def __hash__(self):
        return id(self)

    def item(self):
        if self._a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self._a.reshape(-1)[0].item()

    def tolist(self):
        return self._a.tolist()

    def numpy(self):
        if self._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._a

    def __array__(self, dtype=None, copy=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype)

    def __deepcopy__(self, memo):
        if self._fn is not None:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol at the moment")
        out = type(self).__new__(type(self))
        Tensor.__init__(out, _a=self._a.copy())
        out._rg = self._rg
        if self.grad is not None:
            out.grad = self.grad.clone().detach()
        memo[id(self)] = out
        return out

    # -- autograd
    def _edge(self):
        """Where gradients with respect to this tensor's present value go."""
        if self._poison:
            raise Gap("torch: use of a tensor whose view was modified in place under autograd")
        if self._base is not None and self._seen != self._ver[0] and (self._rg or self._base._rg):
            raise Gap("torch: use of a view after its base was modified in place under autograd")
        sh, dt = self._a.shape, self._a.dtype
        if self._fn is not None:
            return (self._fn, sh, dt)
        if self._rg:
            if self._acc is None:
                self._acc = _Node([], None, leaf=self, name="AccumulateGrad")
            return (self._acc, sh, dt)
        return (None, sh, dt)

    def backward(self, gradient=None, retain_graph=None, create_graph=False):
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if create_graph:
            raise Gap("torch: backward(create_graph=True)")
        if gradient is None:
            if self._a.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            g = np.ones_like(self._a)
        else:
            g = np.asarray(gradient._a)
        for node, val in _run([(self._edge()[0], g)], None, _pybool(retain_graph)).items():
            t = node.leaf
            val = np.ascontiguousarray(val.astype(t._a.dtype, copy=False)).reshape(t._a.shape)
            if t.grad is None:
                t.grad = Tensor(_a=val.copy())
            else:
                t.grad = Tensor(_a=t.grad._a + val)

    def detach(self):
        return Tensor(_a=self._a, _ver=self._ver)

    def detach_(self):
        self._fn, self._rg = None, False
        return self

    def clone(self):
        return _op(self._a.copy(), [self], lambda g: [g], name="Clone")

    def retain_grad(self):
        raise Gap("torch: retain_grad")

    def register_hook(self, *a):
        raise Gap("torch: register_hook")

    # -- conversions
    def cpu(self):
        return self

    def cuda(self, *a, **k):
        raise Gap("torch: cuda")

    def contiguous(self):
        return self if self._a.flags["C_CONTIGUOUS"] else _op(np.ascontiguousarray(self._a), [self], lambda g: [g])

    def is_contiguous(self):
        return _pybool(self._a.flags["C_CONTIGUOUS"])

    def to_dense(self):
        return self

    def to(self, *args, **kw):
        dt = kw.pop("dtype", None)
        dev = kw.pop("device", None)
        if kw:
            raise Gap("torch: Tensor.to(%r)" % (kw,))
        for a in args:
            if isinstance(a, (device, str)):
                dev = a
            elif isinstance(a, np.dtype):
                dt = a
            elif isinstance(a, Tensor):
                dt = a.dtype
            else:
                raise Gap("torch: Tensor.to(%r)" % (a,))
        if dev is not None:
            device(dev)
        return self if dt is None else _cast(self, dt)

    def type(self, dt=None):
        if dt is None:
            return {"f4": "torch.FloatTensor", "f8": "torch.DoubleTensor", "i8": "torch.LongTensor"}[self._a.dtype.str[1:]]
        return _cast(self, np.dtype(dt))

    def type_as(self, o):
        return _cast(self, o.dtype)

    def float(self):
        return _cast(self, float32)

    def double(self):
        return _cast(self, float64)

    def long(self):
        return _cast(self, int64)

    def int(self):
        return _cast(self, int32)

    def bool(self):
        return _cast(self, np.dtype("bool"))

    def new(self, *size):
        if len(size) == 1 and isinstance(size[0], (list, np.ndarray)):
            return Tensor(_a=np.array(size[0], dtype=self._a.dtype))
        a = np.empty([_pyint(s) for s in size], dtype=self._a.dtype)
        if a.dtype.kind == "f":
            a.fill(np.nan)
        return Tensor(_a=a)

    def new_zeros(self, *size, dtype=None):
        return Tensor(_a=np.zeros(_shape(size), dtype=dtype or self._a.dtype))

    def new_ones(self, *size, dtype=None):
        return Tensor(_a=np.ones(_shape(size), dtype=dtype or self._a.dtype))

    def new_tensor(self, data, dtype=None):
        return Tensor(_a=np.array(data, dtype=dtype or self._a.dtype))

    # -- in place
    def _check_inplace(self):
        if _grad_enabled and self._rg and self._fn is None:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")

    def _mutated(self, parents, fn, saved=(), name=""):
        """After the data was changed: record the step that replaced this tensor's value."""
        self._ver[0] += 1
        self._seen = self._ver[0]
        if _grad_enabled and builtins.any(e[0] is not None for e in parents):
            self._fn = _Node(parents, fn, [(v, v[0] + (1 if v is self._ver else 0)) for v in saved], name=name)
            self._rg = True
            if self._base is not None:
                self._base._poison = True
        return self

    def zero_(self):
        self._check_inplace()
        e = self._edge() if _grad_enabled else None
        self._a[...] = 0
        return self._mutated([e] if e else [], lambda g: [np.zeros_like(g)])

    def fill_(self, v):
        self._check_inplace()
        e = self._edge() if _grad_enabled else None
        self._a[...] = v._a if isinstance(v, Tensor) else v
        return self._mutated([e] if e else [], lambda g: [np.zeros_like(g)])

    def copy_(self, v, non_blocking=False):
        self[...] = v
        return self

    def uniform_(self, a=0.0, b=1.0):
        self._check_inplace()
        self._a[...] = _rng.uniform(a, b, size=self._a.shape)
        self._ver[0] += 1
        return self

    def normal_(self, mean=0.0, std=1.0):
        self._check_inplace()
        self._a[...] = _rng.normal(mean, std, size=self._a.shape)
        self._ver[0] += 1
        return self

    def __setitem__(self, idx, value):
        self._check_inplace()
        idx = _index(idx)
        v = value if isinstance(value, Tensor) else Tensor(_a=np.asarray(value, dtype=self._a.dtype))
        e1 = self._edge() if _grad_enabled else (None, None, None)
        e2 = v._edge() if _grad_enabled else (None, None, None)
        va = v._a
        if np.shares_memory(va, self._a):
            va = va.copy()
        want = self._a[idx].shape
        if va.ndim > len(want) and va.shape[:va.ndim - len(want)] == (1,) * (va.ndim - len(want)):
            va = va.reshape(va.shape[va.ndim - len(want):])
        try:
            self._a[idx] = va
        except ValueError as e:
            raise RuntimeError("shape mismatch: %s" % e)
        vs, vd = v._a.shape, v._a.dtype

        def fn(g):
            gt = g.copy()
            gt[idx] = 0
            gv = g[idx]
            if gv.ndim < len(vs):
                gv = gv.reshape((1,) * (len(vs) - gv.ndim) + gv.shape)
            return [gt, _unbroadcast(gv, vs, vd)]
        self._mutated([e1, e2], fn, name="SetItem")

    def _inplace(self, other, f):
        self._check_inplace()
        out = f(Tensor._snapshot(self), other)
        if out._a.shape != self._a.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(self.shape), list(out.shape)))
        if out._a.dtype.kind == "f" and self._a.dtype.kind != "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        self._a[...] = out._a
        fn = out._fn
        self._ver[0] += 1
        self._seen = self._ver[0]
        if fn is not None:
            self._fn, self._rg = fn, True
            if self._base is not None:
                self._base._poison = True
        return self

    @staticmethod
    def _snapshot(t):
        s = Tensor(_a=t._a.copy())
        s._rg, s._fn, s._acc = t._rg, t._fn, t._acc
        if t._rg:
            t._edge()
        return s

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def add_(self, o):
        return self.__iadd__(o)

    def sub_(self, o):
        return self.__isub__(o)

    def mul_(self, o):
        return self.__imul__(o)

    def div_(self, o):
        return self.__itruediv__(o)

    # -- shape
    def __getitem__(self, idx):
        idx = _index(idx)
        a = self._a[idx]
        if not isinstance(a, np.ndarray):
            a = np.asarray(a, dtype=self._a.dtype)
            if _basic(idx):
                # a zero-dimensional view
                full = idx if isinstance(idx, tuple) else (idx,)
                a = self._a[full + (Ellipsis,)] if Ellipsis not in full else a
        sh, dt = self._a.shape, self._a.dtype
        simple = _basic(idx)

        def fn(g):
            out = np.zeros(sh, dtype=dt)
            if simple:
                out[idx] = g
            else:
                np.add.at(out, idx, g)
            return [out]
        return _op(a, [self], fn, view=self if simple else None, name="Index")

    def _reshaped(self, shape, must_view):
        shape = _shape(shape)
        try:
            a = self._a.reshape(shape)
        except ValueError:
            raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(shape), self._a.size))
        shares = a.size == 0 or np.shares_memory(a, self._a)
        if must_view and not shares:
            raise RuntimeError("view size is not compatible with input tensor's size and stride")
        sh = self._a.shape
        return _op(a, [self], lambda g: [g.reshape(sh)], view=self if shares else None, name="View")

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], np.dtype):
            raise Gap("torch: view(dtype)")
        return self._reshaped(shape, True)

    def reshape(self, *shape):
        return self._reshaped(shape, False)

    def view_as(self, o):
        return self._reshaped(tuple(o.shape), True)

    def reshape_as(self, o):
        return self._reshaped(tuple(o.shape), False)

    def flatten(self, start_dim=0, end_dim=-1):
        n = self._a.ndim
        s, e = start_dim % builtins.max(n, 1), end_dim % builtins.max(n, 1)
        sh = self._a.shape
        return self.reshape(*(sh[:s] + (-1,) + sh[e + 1:]))

    def t(self):
        if self._a.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions, but self is %dD" % self._a.ndim)
        return self.permute(*range(self._a.ndim)[::-1])

    T = property(lambda s: s.permute(*range(s._a.ndim)[::-1]))

    def permute(self, *dims):
        dims = _shape(dims)
        dims = tuple(d % self._a.ndim for d in dims)
        inv = tuple(np.argsort(dims)) if dims else ()
        return _op(self._a.transpose(dims), [self], lambda g: [g.transpose(inv)], view=self, name="Permute")

    def transpose(self, a, b):
        dims = list(range(self._a.ndim))
        dims[a], dims[b] = dims[b], dims[a]
        return self.permute(*dims)

    def squeeze(self, dim=None):
        sh = self._a.shape
        if dim is None:
            a = self._a.squeeze()
        else:
            if not -builtins.max(self._a.ndim, 1) <= dim < builtins.max(self._a.ndim, 1):
                raise IndexError("Dimension out of range")
            a = self._a if not sh or sh[dim] != 1 else self._a.squeeze(axis=dim)
        return _op(a, [self], lambda g: [g.reshape(sh)], view=self, name="Squeeze")

    def unsqueeze(self, dim):
        sh = self._a.shape
        return _op(np.expand_dims(self._a, dim), [self], lambda g: [g.reshape(sh)], view=self, name="Unsqueeze")

    def expand(self, *shape):
        shape = _shape(shape)
        own = (1,) * (len(shape) - self._a.ndim) + self._a.shape
        shape = tuple(o if s == -1 else s for s, o in zip(shape, own))
        return _op(np.broadcast_to(self._a, shape), [self], lambda g: [g], view=self, name="Expand")

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *reps):
        reps = _shape(reps)
        out = self
        idx = []
        if len(reps) != self._a.ndim:
            raise Gap("torch: repeat with more dimensions")
        for d, r in enumerate(reps):
            out = cat([out] * r, dim=d)
        return out

    def diagonal(self, *a, **k):
        return diagonal(self, *a, **k)

    # -- arithmetic
    def __neg__(self):
        return _op(-self._a, [self], lambda g: [-g], name="Neg")

    def __pos__(self):
        return self

    def __add__(self, o):
        a, b, x, y = _pair(self, o)
        return _op(x + y, [a, b], lambda g: [g, g], name="Add")

    __radd__ = __add__

    def __sub__(self, o):
        a, b, x, y = _pair(self, o)
        return _op(x - y, [a, b], lambda g: [g, -g], name="Sub")

    def __rsub__(self, o):
        a, b, x, y = _pair(self, o)
        return _op(y - x, [a, b], lambda g: [-g, g], name="Sub")

    def __mul__(self, o):
        a, b, x, y = _pair(self, o)
        return _op(x * y, [a, b], lambda g: [g * y, g * x], save=_need(a, b), name="Mul")

    __rmul__ = __mul__

    def __truediv__(self, o):
        a, b, x, y = _pair(self, o, True)
        with np.errstate(all="ignore"):
            out = x / y
        return _op(out, [a, b], lambda g: [g / y, -g * x / (y * y)], save=(b,) + ((a,) if b._rg else ()), name="Div")

    def __rtruediv__(self, o):
        a, b, x, y = _pair(self, o, True)
        with np.errstate(all="ignore"):
            out = y / x
        return _op(out, [a, b], lambda g: [-g * y / (x * x), g / x], save=(a,) + ((b,) if a._rg else ()), name="Div")

    def __pow__(self, p):
        if isinstance(p, Tensor):
            if p._a.size != 1 or p._rg:
                raise Gap("torch: tensor ** tensor")
            p = p.item()
        x = self._a
        if x.dtype.kind in "iu" and isinstance(p, _pyfloat):
            x = x.astype(_default_dtype)
        with np.errstate(all="ignore"):
            out = x * x if p == 2 else x ** p

        def fn(g):
            with np.errstate(all="ignore"):
                return [g * (np.zeros_like(x) if p == 0 else p * x ** (p - 1) if p != 2 else 2 * x)]
        return _op(np.asarray(out, dtype=x.dtype), [self], fn, save=(self,), name="Pow")

    def __rpow__(self, b):
        return exp(self * np.log(b))

    def __matmul__(self, o):
        return matmul(self, o)

    def __floordiv__(self, o):
        raise Gap("torch: //")

    def __mod__(self, o):
        raise Gap("torch: %")

    def __eq__(self, o):
        return _cmp(self, o, np.equal)

    def __ne__(self, o):
        return _cmp(self, o, np.not_equal)

    def __lt__(self, o):
        return _cmp(self, o, np.less)

    def __le__(self, o):
        return _cmp(self, o, np.less_equal)

    def __gt__(self, o):
        return _cmp(self, o, np.greater)

    def __ge__(self, o):
        return _cmp(self, o, np.greater_equal)

    def __and__(self, o):
        return _cmp(self, o, np.logical_and)

    def __or__(self, o):
        return _cmp(self, o, np.logical_or)

    def __invert__(self):
        return Tensor(_a=~self._a)

    def __getattr__(self, name):
        if name.startswith("__") or name == "bounds":
            raise AttributeError(name)
        if name in ("_backward_hooks", "names"):
            raise AttributeError(name)
        if name in _METHODS:
            f = globals()[name]
            return lambda *a, **k: f(self, *a, **k)
        if name in _REAL_TENSOR_ATTRS:
            raise Gap("torch.Tensor.%s" % name)
        raise AttributeError("'Tensor' object has no attribute %r" % name)


# attributes real tensors have and this stand-in does not
_REAL_TENSOR_ATTRS = set("""addmm allclose all any amax amin angle argsort as_strided baddbmm bernoulli_ bincount chunk
conj cos cross cumprod cumsum det diag diag_embed dot einsum equal erf fmod frac ge gt half hardshrink index_add index_copy index_fill
index_put index_select inverse isclose isfinite isinf isnan kthvalue le lerp log10 log1p log2 logdet logical_and logical_not logical_or
logit logsumexp lt masked_fill masked_fill_ masked_scatter masked_select median mm mode mv narrow ne norm numpy_ ormqr prod qr relu relu_ repeat_interleave
roll rot90 round rsqrt scatter scatter_ scatter_add sign sin slogdet sort split std sum_to_size svd symeig take tan tanh to_sparse topk trace
tril triu trunc unbind unfold unique var where xlogy share_memory_ storage stride data_ptr is_cuda layout names element_size pin_memory
clamp_ exp_ log_ sigmoid_ sqrt_ pow_ squeeze_ unsqueeze_ t_ transpose_ neg_ abs_ floor ceil remainder fill_diagonal_ random_ exponential_""".split())
_METHODS = set("""sum mean abs exp log sigmoid softmax log_softmax argmax argmin max min gather matmul mm mv dot sqrt clamp tanh relu trace
prod std var norm logsumexp pow add sub mul div neg square isnan isfinite all any eq ne lt le gt ge cumsum masked_fill index_select
diag allclose equal log1p sign unbind split chunk std expm1 matrix_power bmm isinf reciprocal rsqrt where round floor ceil""".split())


class Parameter(Tensor):
    def __init__(self, data=None, requires_grad=True):
        a = data._a if isinstance(data, Tensor) else np.empty((0,), dtype=_default_dtype)
        Tensor.__init__(self, _a=a)
        self.requires_grad_(requires_grad)

    def __repr__(self):
        return "Parameter containing:\n" + Tensor.__repr__(self)


FloatTensor = Tensor


# ---------------------------------------------------------------- engine
def _need(a, b):
    """The operands a product has to keep: each one only for the other's gradient."""
    return ((a,) if b._rg else ()) + ((b,) if a._rg else ())


def _op(a, parents, fn, save=(), view=None, name=""):
    out = Tensor(_a=a if isinstance(a, np.ndarray) else np.asarray(a),
                 _base=None if view is None else (view._base if view._base is not None else view),
                 _ver=None if view is None else view._ver)
    if not _grad_enabled:
        return out
    for p in parents:
        if p._rg:
            break
    else:
        return out
    if out._a.dtype.kind == "f":
        edges = [p._edge() for p in parents]
        out._fn = _Node(edges, fn, [(p._ver, p._ver[0]) for p in save], name=name)
        out._rg = True
    return out


def _run(roots, wanted, retain):
    with np.errstate(all="ignore"):
        return _run_(roots, wanted, retain)


def _run_(roots, wanted, retain):
    """Propagate; returns {leaf node: gradient} (or {wanted node: gradient})."""
    order, state = [], {}
    stack = [(n, False) for n, _ in roots if n is not None]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if id(n) in state:
            continue
        state[id(n)] = n
        stack.append((n, True))
        for p, _, _ in n.parents:
            if p is not None and id(p) not in state:
                stack.append((p, False))
    grads = {}
    for n, g in roots:
        grads[id(n)] = grads[id(n)] + g if id(n) in grads else g
    out = {}
    for n in reversed(order):
        g = grads.pop(id(n), None)
        if g is None:
            continue
        if wanted is not None and id(n) in wanted:
            out[n] = g
        if n.fn is None:
            if wanted is None:
                out[n] = g
            continue
        if n.freed:
            raise RuntimeError("Trying to backward through the graph a second time, but the saved intermediate results have already been freed.")
        for ver, at in n.saved:
            if ver[0] != at:
                raise RuntimeError("one of the variables needed for gradient computation has been modified by an inplace operation")
        gs = n.fn(g)
        for (p, sh, dt), gp in zip(n.parents, gs):
            if p is None or gp is None:
                continue
            gp = _unbroadcast(gp, sh, dt)
            grads[id(p)] = grads[id(p)] + gp if id(p) in grads else gp
        if not retain:
            n.freed = True
    return out


class autograd:
    @staticmethod
    def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True, allow_unused=False):
        single = isinstance(inputs, Tensor)
        outs = [outputs] if isinstance(outputs, Tensor) else list(outputs)
        ins = [inputs] if single else list(inputs)
        if grad_outputs is not None:
            gos = [grad_outputs] if isinstance(grad_outputs, Tensor) else list(grad_outputs)
        else:
            gos = [None] * len(outs)
        roots = []
        for o, go in zip(outs, gos):
            if not o._rg:
                raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
            if go is None and o._a.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            roots.append((o._edge()[0], np.ones_like(o._a) if go is None else go._a))
        nodes = []
        for t in ins:
            if not t._rg:
                raise RuntimeError("One of the differentiated Tensors does not require grad")
            nodes.append(t._edge()[0])
        retain = create_graph if retain_graph is None else retain_graph
        res = _run(roots, {id(n) for n in nodes}, retain)
        out = []
        for t, n in zip(ins, nodes):
            if n not in res:
                if not allow_unused:
                    raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph. Set allow_unused=True if this is the desired behavior.")
                out.append(None)
                continue
            g = Tensor(_a=np.array(res[n]))
            if create_graph:
                def boom(_):
                    raise Gap("torch: second derivatives")
                g._fn, g._rg = _Node([], boom, name="Second"), True
            out.append(g)
        return tuple(out)

    no_grad = no_grad
    enable_grad = enable_grad


# ---------------------------------------------------------------- helpers
def _shape(size):
    if len(size) == 1 and isinstance(size[0], (tuple, list, Size)):
        size = size[0]
    return tuple(_pyint(s) for s in size)


def _index(idx):
    if isinstance(idx, tuple):
        return tuple(_index1(i) for i in idx)
    return _index1(idx)


def _index1(i):
    if isinstance(i, Tensor):
        return _pyint(i._a) if i._a.ndim == 0 and i._a.dtype.kind in "iu" else i._a
    if isinstance(i, list):
        a = np.array([_pyint(x) if isinstance(x, Tensor) else x for x in i])
        return a.astype(np.int64) if a.size == 0 else a
    if isinstance(i, range):
        return np.array(list(i), dtype=np.int64)
    if isinstance(i, slice):
        if i.step is not None and i.step <= 0:
            raise ValueError("step must be greater than zero")
        f = [None if v is None else _pyint(v) for v in (i.start, i.stop, i.step)]
        return slice(*f)
    if isinstance(i, _pybool):
        raise Gap("torch: boolean index")
    if isinstance(i, numbers.Integral):
        return _pyint(i)
    return i


def _basic(idx):
    items = idx if isinstance(idx, tuple) else (idx,)
    return builtins.all(i is None or i is Ellipsis or isinstance(i, (slice, _pyint)) for i in items)


_CAT = {"b": 0, "i": 1, "u": 1, "f": 2}


def _result(a, b, div=False):
    """torch's type promotion for two tensors / numbers."""
    best = None
    for rank in ("dim", "zero", "py"):
        dts = []
        for x in (a, b):
            if isinstance(x, Tensor):
                if (x._a.ndim > 0) == (rank == "dim") and rank != "py":
                    dts.append(x._a.dtype)
            elif rank == "py":
                if isinstance(x, (_pybool, np.bool_)):
                    dts.append(np.dtype("bool"))
                elif isinstance(x, (numbers.Integral,)):
                    dts.append(int64)
                elif isinstance(x, (np.floating, _pyfloat)):
                    dts.append(_default_dtype)
                else:
                    raise TypeError("unsupported operand type: %s" % type(x).__name__)
        if not dts:
            continue
        d = dts[0]
        for e in dts[1:]:
            if _CAT[e.kind] > _CAT[d.kind]:
                d = e
            elif _CAT[e.kind] == _CAT[d.kind]:
                d = np.promote_types(d, e)
        if best is None or _CAT[d.kind] > _CAT[best.kind]:
            best = d
    if div and best.kind != "f":
        best = _default_dtype
    return best


def _pair(a, b, div=False):
    if isinstance(b, Tensor):
        x, y = a._a, b._a
        if x.dtype == y.dtype and x.dtype.kind == "f" and (x.shape == y.shape or not x.ndim or not y.ndim):
            return a, b, x, y
    elif type(b) in (_pyint, _pyfloat) and a._a.dtype.kind == "f":
        return a, Tensor(_a=np.asarray(b, dtype=a._a.dtype)), a._a, np.asarray(b, dtype=a._a.dtype)
    if isinstance(b, np.ndarray):
        if b.ndim:
            raise Gap("torch: mixing tensors and numpy arrays")
        b = b.item()
    dt = _result(a, b, div)
    bt = b if isinstance(b, Tensor) else Tensor(_a=np.asarray(b, dtype=dt))
    try:
        np.broadcast_shapes(a._a.shape, bt._a.shape)
    except ValueError:
        raise RuntimeError("The size of tensor a %s must match the size of tensor b %s" % (list(a.shape), list(bt.shape)))
    return a, bt, a._a.astype(dt, copy=False), bt._a.astype(dt, copy=False)


def _cmp(a, b, f):
    if b is None or not isinstance(b, (Tensor, numbers.Number, np.generic)):
        return NotImplemented
    _, _, x, y = _pair(a, b)
    return Tensor(_a=np.asarray(f(x, y)))


def _cast(t, dt):
    dt = np.dtype(dt)
    if t._a.dtype == dt:
        return t
    # row-major, so that results do not depend on how the table happened to be stored
    with np.errstate(all="ignore"):
        return _op(t._a.astype(dt, order="C"), [t], lambda g: [g], name="Cast")


def _axes(t, dim):
    if dim is None:
        return None
    dims = (dim,) if isinstance(dim, numbers.Integral) else tuple(dim)
    n = builtins.max(t._a.ndim, 1)
    for d in dims:
        if not -n <= d < n:
            raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-n, n - 1, d))
    if t._a.ndim == 0:
        return None
    return tuple(d % n for d in dims)


def _kw(dim, k):
    if "axis" in k:
        dim = k.pop("axis")
    kd = k.pop("keepdims", k.pop("keepdim", False))
    if k:
        raise Gap("torch: arguments %r" % (sorted(k),))
    return dim, kd


# ---------------------------------------------------------------- creation
def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, Tensor):
        a = data._a.copy()
    elif isinstance(data, (np.ndarray, np.generic)):
        a = np.array(data)
    else:
        def conv(x):
            return [conv(i) for i in x] if isinstance(x, (list, tuple)) else x.item() if isinstance(x, (Tensor, np.generic)) else x
        a = np.array(conv(data))
        if a.dtype.kind == "f":
            a = a.astype(_default_dtype)
    if a.dtype == object:
        raise TypeError("can't convert this to a tensor")
    t = Tensor(_a=a if dtype is None else a.astype(dtype))
    return t.requires_grad_() if requires_grad else t


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor):
        return data if dtype is None else data.to(dtype)
    if isinstance(data, np.ndarray):
        t = from_numpy(data)
        return t if dtype is None else t.to(dtype)
    return tensor(data, dtype=dtype)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if a.dtype not in (float32, float64, int64, int32, uint8, np.dtype("bool"), np.dtype("int16"), np.dtype("int8"), np.dtype("float16")):
        raise TypeError("can't convert np.ndarray of type %s." % a.dtype)
    if builtins.any(s < 0 for s in a.strides):
        raise ValueError("some of the strides of a given numpy array are negative. This is currently not supported")
    return Tensor(_a=a)


def _make(f, size, dtype, requires_grad):
    t = Tensor(_a=f(_shape(size), dtype=dtype or _default_dtype))
    return t.requires_grad_() if requires_grad else t


def zeros(*size, dtype=None, device=None, requires_grad=False):
    return _make(np.zeros, size, dtype, requires_grad)


def ones(*size, dtype=None, device=None, requires_grad=False):
    return _make(np.ones, size, dtype, requires_grad)


def empty(*size, dtype=None, device=None, requires_grad=False):
    t = _make(np.zeros, size, dtype, requires_grad)
    if t._a.dtype.kind == "f":
        t._a.fill(np.nan)
    return t


def full(size, v, dtype=None, device=None):
    return Tensor(_a=np.full(_shape((size,)), v, dtype=dtype or _default_dtype))


def zeros_like(t, dtype=None, device=None):
    return Tensor(_a=np.zeros(t._a.shape, dtype=dtype or t._a.dtype))


def ones_like(t, dtype=None, device=None):
    return Tensor(_a=np.ones(t._a.shape, dtype=dtype or t._a.dtype))


def eye(n, m=None, dtype=None, device=None):
    return Tensor(_a=np.eye(_pyint(n), None if m is None else _pyint(m), dtype=dtype or _default_dtype))


def arange(*a, dtype=None, device=None):
    x = np.arange(*a)
    if dtype is not None:
        x = x.astype(dtype)
    elif x.dtype.kind == "f":
        x = x.astype(_default_dtype)
    else:
        x = x.astype(int64)
    return Tensor(_a=x)


def rand(*size):
    return Tensor(_a=_rng.random(_shape(size)).astype(_default_dtype))


def randn(*size):
    return Tensor(_a=_rng.standard_normal(_shape(size)).astype(_default_dtype))


def is_tensor(x):
    return isinstance(x, Tensor)


def numel(t):
    return t.numel()


# ---------------------------------------------------------------- functions
def _unary(f, df, name):
    def op(t):
        x = t._a
        if x.dtype.kind != "f" and name not in ("abs", "sign"):
            x = x.astype(_default_dtype)
        with np.errstate(all="ignore"):
            y = f(x)
        y = np.asarray(y, dtype=x.dtype)
        res = name in ("exp", "expm1", "sqrt", "sigmoid", "tanh", "relu", "reciprocal")
        out = _op(y, [t], lambda g: [g * df(x, y)], save=() if res else (t,), name=name)
        if res and out._fn is not None:
            out._fn.saved = [(out._ver, out._ver[0])]
        return out
    op.__name__ = name
    return op


def _sigmoid(x):
    with np.errstate(all="ignore"):
        return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x)))).astype(x.dtype)


abs = _unary(np.abs, lambda x, y: np.sign(x), "abs")
exp = _unary(np.exp, lambda x, y: y, "exp")
expm1 = _unary(np.expm1, lambda x, y: y + 1, "expm1")
log = _unary(np.log, lambda x, y: 1 / x, "log")
log1p = _unary(np.log1p, lambda x, y: 1 / (1 + x), "log1p")
sqrt = _unary(np.sqrt, lambda x, y: 0.5 / y, "sqrt")
rsqrt = _unary(lambda x: 1 / np.sqrt(x), lambda x, y: -0.5 * y / x, "rsqrt")
reciprocal = _unary(lambda x: 1 / x, lambda x, y: -y * y, "reciprocal")
sigmoid = _unary(_sigmoid, lambda x, y: y * (1 - y), "sigmoid")
tanh = _unary(np.tanh, lambda x, y: 1 - y * y, "tanh")
relu = _unary(lambda x: np.maximum(x, 0), lambda x, y: (y > 0).astype(y.dtype), "relu")
sign = _unary(np.sign, lambda x, y: np.zeros_like(x), "sign")
round = _unary(np.round, lambda x, y: np.zeros_like(x), "round")
floor = _unary(np.floor, lambda x, y: np.zeros_like(x), "floor")
ceil = _unary(np.ceil, lambda x, y: np.zeros_like(x), "ceil")
softplus_ = _unary(lambda x: np.logaddexp(0, x), lambda x, y: _sigmoid(x), "softplus")


def square(t):
    return t ** 2


def pow(t, p):
    return t ** p


def add(a, b, alpha=1):
    return a + (b if alpha == 1 else b * alpha)


def sub(a, b, alpha=1):
    return a - (b if alpha == 1 else b * alpha)


def mul(a, b):
    return a * b


def div(a, b):
    return a / b


true_divide = div


def neg(a):
    return -a


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def isnan(t):
    return Tensor(_a=np.isnan(t._a))


def isinf(t):
    return Tensor(_a=np.isinf(t._a))


def isfinite(t):
    return Tensor(_a=np.isfinite(t._a))


def all(t):
    return Tensor(_a=np.asarray(t._a.all()))


def any(t):
    return Tensor(_a=np.asarray(t._a.any()))


def equal(a, b):
    return a._a.shape == b._a.shape and _pybool((a._a == b._a).all())


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _pybool(np.allclose(a._a, b._a, rtol, atol, equal_nan))


def sum(t, dim=None, **k):
    dtype = k.pop("dtype", None)
    if dtype is not None:
        t = _cast(t, dtype)
    dim, kd = _kw(dim, k)
    ax = _axes(t, dim)
    x = t._a
    if x.dtype.kind in "b":
        x = x.astype(int64)
    a = np.asarray(x.sum(axis=ax, keepdims=kd), dtype=x.dtype if x.dtype.kind == "f" else int64)
    sh = t._a.shape

    def fn(g):
        if ax is not None and not kd:
            g = np.expand_dims(g, ax)
        return [np.broadcast_to(g.reshape((1,) * len(sh)) if ax is None and g.ndim == 0 else g, sh)]
    return _op(a, [t], fn, name="Sum")


def mean(t, dim=None, **k):
    dim, kd = _kw(dim, k)
    if t._a.dtype.kind != "f":
        raise RuntimeError("Can only calculate the mean of floating types. Got Long instead.")
    ax = _axes(t, dim)
    n = t._a.size if ax is None else _pyint(np.prod([t._a.shape[d] for d in ax], dtype=np.int64))
    with np.errstate(all="ignore"):
        return sum(t, dim=dim, keepdim=kd) / n


def prod(t, dim=None, **k):
    raise Gap("torch: prod")


def var(t, dim=None, unbiased=True, **k):
    dim, kd = _kw(dim, k)
    m = mean(t, dim=dim, keepdim=True) if dim is not None else mean(t)
    ax = _axes(t, dim)
    n = t._a.size if ax is None else _pyint(np.prod([t._a.shape[d] for d in ax], dtype=np.int64))
    d = t - m
    return sum(d * d, dim=dim, keepdim=kd) / (n - 1 if unbiased else n)


def std(t, dim=None, unbiased=True, **k):
    return sqrt(var(t, dim, unbiased, **k))


def norm(t, p="fro", dim=None, **k):
    dim, kd = _kw(dim, k)
    if p in ("fro", 2, 2.0):
        return sqrt(sum(t * t, dim=dim, keepdim=kd))
    if p == 1:
        return sum(abs(t), dim=dim, keepdim=kd)
    raise Gap("torch: norm(p=%r)" % (p,))


def cumsum(t, dim):
    ax = dim % t._a.ndim
    return _op(np.cumsum(t._a, axis=ax, dtype=t._a.dtype), [t], lambda g: [np.flip(np.cumsum(np.flip(g, ax), axis=ax), ax)])


def trace(t):
    n, m = t._a.shape

    def fn(g):
        out = np.zeros((n, m), dtype=t._a.dtype)
        np.fill_diagonal(out, g)
        return [out]
    return _op(np.asarray(np.trace(t._a), dtype=t._a.dtype), [t], fn, name="Trace")


def diagonal(t, offset=0, dim1=0, dim2=1):
    if t._a.ndim != 2 or offset:
        raise Gap("torch: diagonal")
    n = builtins.min(t._a.shape)
    return t[np.arange(n), np.arange(n)]


def diag(t, diagonal=0):
    if diagonal:
        raise Gap("torch: diag")
    if t._a.ndim == 2:
        n = builtins.min(t._a.shape)
        return t[np.arange(n), np.arange(n)]
    return _op(np.diag(t._a), [t], lambda g: [np.diagonal(g)], name="Diag")


def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise TypeError("matmul(): arguments must be Tensors")
    if a._a.dtype != b._a.dtype:
        raise RuntimeError("expected scalar type %s but found %s" % (a._a.dtype, b._a.dtype))
    x, y = a._a, b._a
    try:
        out = np.matmul(x, y)
    except ValueError as e:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied: %s" % e)

    def fn(g):
        if x.ndim == 1 and y.ndim == 1:
            return [g * y, g * x]
        if x.ndim == 1:
            return [np.matmul(y, g[..., None])[..., 0], x[:, None] * g[..., None, :]]
        if y.ndim == 1:
            return [g[..., None] * y, np.matmul(np.swapaxes(x, -1, -2), g[..., None])[..., 0]]
        return [np.matmul(g, np.swapaxes(y, -1, -2)), np.matmul(np.swapaxes(x, -1, -2), g)]
    return _op(np.asarray(out), [a, b], fn, save=_need(a, b), name="Matmul")


def mm(a, b):
    if a._a.ndim != 2 or b._a.ndim != 2:
        raise RuntimeError("matrices expected")
    return matmul(a, b)


def bmm(a, b):
    return matmul(a, b)


def mv(a, b):
    return matmul(a, b)


def dot(a, b):
    return matmul(a, b)


def einsum(eq, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    if "->" not in eq or "." in eq:
        raise Gap("torch: einsum(%r)" % eq)
    eq = eq.replace(" ", "")
    ins, out = eq.split("->")
    ins = ins.split(",")
    if builtins.any(len(set(i)) != len(i) for i in ins):
        raise Gap("torch: einsum(%r)" % eq)
    arrs = [t._a for t in ts]
    res = np.einsum(eq, *arrs).astype(arrs[0].dtype)

    def fn(g):
        gs = []
        for k, i in enumerate(ins):
            others = [ins[j] for j in range(len(ins)) if j != k]
            have = set(out).union(*[set(o) for o in others])
            if not set(i) <= have:
                miss = [c for c in i if c not in have]
                extra = "".join(miss)
                ones_ = np.ones([arrs[k].shape[i.index(c)] for c in miss], dtype=arrs[k].dtype)
                gs.append(np.einsum(",".join([out] + others + [extra]) + "->" + i, g, *[arrs[j] for j in range(len(ins)) if j != k], ones_))
            else:
                gs.append(np.einsum(",".join([out] + others) + "->" + i, g, *[arrs[j] for j in range(len(ins)) if j != k]))
        return gs
    return _op(np.asarray(res), list(ts), fn, save=tuple(ts), name="Einsum")


def matrix_power(a, n):
    if a._a.ndim != 2 or a._a.shape[0] != a._a.shape[1]:
        raise RuntimeError("matrix_power(): expected a square matrix")
    if n < 0:
        raise Gap("torch: negative matrix power")
    if n == 0:
        return Tensor(_a=np.eye(a._a.shape[0], dtype=a._a.dtype))
    if n == 1:
        return a.clone()
    z, result = None, None
    n = _pyint(n)
    while n > 0:
        n, bit = divmod(n, 2)
        z = a if z is None else matmul(z, z)
        if bit:
            result = z if result is None else matmul(result, z)
    return result


def matrix_exp(a):
    raise Gap("torch: matrix_exp")


def softmax(t, dim, dtype=None):
    x = t._a
    e = np.exp(x - x.max(axis=dim, keepdims=True))
    y = e / e.sum(axis=dim, keepdims=True)
    return _op(y, [t], lambda g: [y * (g - (g * y).sum(axis=dim, keepdims=True))], name="Softmax")


def log_softmax(t, dim, dtype=None):
    x = t._a
    m = x.max(axis=dim, keepdims=True)
    y = x - m - np.log(np.exp(x - m).sum(axis=dim, keepdims=True))
    return _op(y, [t], lambda g: [g - np.exp(y) * g.sum(axis=dim, keepdims=True)], name="LogSoftmax")


def logsumexp(t, dim, keepdim=False):
    x = t._a
    m = x.max(axis=dim, keepdims=True)
    y = m + np.log(np.exp(x - m).sum(axis=dim, keepdims=True))
    p = np.exp(x - y)
    out = y if keepdim else y.squeeze(axis=dim)
    return _op(out, [t], lambda g: [p * (g if keepdim else np.expand_dims(g, dim))], name="LogSumExp")


def argmax(t, dim=None, keepdim=False):
    a = np.asarray(np.argmax(t._a, axis=dim), dtype=int64)
    return Tensor(_a=np.expand_dims(a, dim) if keepdim and dim is not None else a)


def argmin(t, dim=None, keepdim=False):
    a = np.asarray(np.argmin(t._a, axis=dim), dtype=int64)
    return Tensor(_a=np.expand_dims(a, dim) if keepdim and dim is not None else a)


class _VI(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _extreme(t, dim, keepdim, arg, red):
    if isinstance(dim, Tensor):
        raise Gap("torch: elementwise max/min")
    if dim is None:
        i = _pyint(arg(t._a))
        return t.reshape(-1)[i]
    idx = np.expand_dims(arg(t._a, axis=dim), dim).astype(int64)
    v = gather(t, dim, Tensor(_a=idx))
    i = Tensor(_a=idx)
    if not keepdim:
        v, i = v.squeeze(dim), i.squeeze(dim)
    return _VI((v, i))


def max(t, dim=None, keepdim=False):
    return _extreme(t, dim, keepdim, np.argmax, np.max)


def min(t, dim=None, keepdim=False):
    return _extreme(t, dim, keepdim, np.argmin, np.min)


def clamp(t, min=None, max=None):
    lo = -np.inf if min is None else min
    hi = np.inf if max is None else max
    x = t._a
    return _op(np.clip(x, lo, hi).astype(x.dtype), [t], lambda g: [g * ((x >= lo) & (x <= hi))], save=(t,), name="Clamp")


def gather(t, dim, index):
    idx = index._a
    if idx.dtype != int64:
        raise RuntimeError("gather(): Expected dtype int64 for index")
    if idx.ndim != t._a.ndim:
        raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    if idx.size and (idx.min() < 0 or idx.max() >= t._a.shape[dim]):
        raise RuntimeError("index out of bounds for dimension %d with size %d" % (dim, t._a.shape[dim]))
    grid = [Ellipsis] * 0
    full_ = list(np.indices(idx.shape))
    full_[dim] = idx
    full_ = tuple(full_)
    sh, dt = t._a.shape, t._a.dtype

    def fn(g):
        out = np.zeros(sh, dtype=dt)
        np.add.at(out, full_, g)
        return [out]
    return _op(t._a[full_], [t], fn, name="Gather")


def index_select(t, dim, index):
    sl = [slice(None)] * t._a.ndim
    sl[dim] = index._a
    return t[tuple(sl)]


def where(cond, a=None, b=None):
    if a is None:
        return tuple(Tensor(_a=x.astype(int64)) for x in np.nonzero(cond._a))
    if not isinstance(a, Tensor) and not isinstance(b, Tensor):
        raise Gap("torch: where with two numbers")
    if not isinstance(a, Tensor):
        a = Tensor(_a=np.asarray(a, dtype=b._a.dtype))
    if not isinstance(b, Tensor):
        b = Tensor(_a=np.asarray(b, dtype=a._a.dtype))
    c = cond._a
    return _op(np.where(c, a._a, b._a), [a, b], lambda g: [g * c, g * ~c], name="Where")


def masked_fill(t, mask, v):
    m = mask._a
    return _op(np.where(m, np.asarray(v, dtype=t._a.dtype), t._a), [t], lambda g: [g * ~m])


def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    ts = list(ts)
    if not ts:
        raise RuntimeError("expected a non-empty list of Tensors")
    if len({t._a.dtype for t in ts}) > 1:
        raise Gap("torch: cat of different types")
    try:
        out = np.concatenate([t._a for t in ts], axis=dim)
    except ValueError as e:
        raise RuntimeError("Sizes of tensors must match except in dimension %d: %s" % (dim, e))
    cuts = np.cumsum([t._a.shape[dim] for t in ts])[:-1]
    return _op(out, ts, lambda g: np.split(g, cuts, axis=dim), name="Cat")


def stack(ts, dim=0):
    return cat([t.unsqueeze(dim) for t in ts], dim=dim)


def unbind(t, dim=0):
    sl = [slice(None)] * t._a.ndim
    out = []
    for i in range(t._a.shape[dim]):
        sl[dim] = i
        out.append(t[tuple(sl)])
    return tuple(out)


def split(t, size, dim=0):
    sizes = size if isinstance(size, (list, tuple)) else [builtins.min(size, t._a.shape[dim] - i) for i in range(0, t._a.shape[dim], size)]
    out, at = [], 0
    for s in sizes:
        sl = [slice(None)] * t._a.ndim
        sl[dim] = slice(at, at + s)
        out.append(t[tuple(sl)])
        at += s
    return tuple(out)


def chunk(t, n, dim=0):
    return split(t, -(-t._a.shape[dim] // n), dim)


def unsqueeze(t, dim):
    return t.unsqueeze(dim)


def squeeze(t, dim=None):
    return t.squeeze(dim)


def transpose(t, a, b):
    return t.transpose(a, b)


def t(x):
    return x.t()


def reshape(x, shape):
    return x.reshape(*shape)


def flatten(x, start_dim=0, end_dim=-1):
    return x.flatten(start_dim, end_dim)


def clone(x):
    return x.clone()


def typename(x):
    return type(x).__name__


class _Cuda:
    @staticmethod
    def is_available():
        return False

    @staticmethod
    def manual_seed_all(seed):
        pass


cuda = _Cuda()

import importlib  # noqa: E402

nn = importlib.import_module("torch.nn")
optim = importlib.import_module("torch.optim")
