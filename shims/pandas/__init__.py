"""Stand-in for pandas: the part of DataFrame/Series/Index that tabular code like causalnex's needs.

Written from pandas' documented behaviour (1.x).  An attribute pandas has but this file does not
implement raises core.Gap (inconclusive case); a name pandas does not have raises AttributeError.
"""
import copy as _copy
import numbers

import numpy as np

from _gap import gap, module_getattr

__version__ = "1.5.3"
__getattr__ = module_getattr("pandas")

NA = float("nan")

_KNOWN = set("""
T abs add add_prefix add_suffix agg aggregate align all any append apply applymap asfreq asof assign astype at at_time attrs
axes backfill between_time bfill bool boxplot clip columns combine combine_first compare convert_dtypes copy corr corrwith
count cov cummax cummin cumprod cumsum describe diff div divide dot drop drop_duplicates droplevel dropna dtypes dtype
duplicated empty eq equals eval ewm expanding explode ffill fillna filter first first_valid_index floordiv from_dict
from_records ge get groupby gt head hist iat idxmax idxmin iloc index infer_objects info insert interpolate isin isna isnull
items iteritems iterrows itertuples join keys kurt kurtosis last last_valid_index le loc lookup lt mad mask max mean median
melt memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe pivot
pivot_table plot pop pow prod product quantile query radd rank rdiv reindex reindex_like rename rename_axis reorder_levels
replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags
set_index shape shift size skew slice_shift sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes
swaplevel tail take to_clipboard to_csv to_dict to_excel to_feather to_json to_numpy to_parquet to_pickle to_records
to_string transform transpose truediv truncate tz_convert unstack update value_counts values var where xs
argmax argmin argsort array autocorr between cat dt factorize hasnans is_monotonic is_monotonic_decreasing
is_monotonic_increasing is_unique item map name nbytes ravel repeat searchsorted str to_frame to_list tolist unique view
argsort asi8 delete difference drop_duplicates dropna duplicated equals get_indexer get_indexer_for get_level_values get_loc
get_slice_bound groupby has_duplicates holds_integer identical inferred_type insert intersection is_ is_boolean is_categorical
is_floating is_integer is_interval is_mixed is_numeric is_object is_type_compatible isin join levels codes names nlevels levshape
putmask reindex set_names slice_indexer slice_locs sort sort_values sortlevel symmetric_difference to_flat_index to_frame
to_native_types to_series union from_product from_tuples from_arrays from_frame remove_unused_levels set_levels
""".split())


def _unknown(self, name, kind):
    if name.startswith("_") or name not in _KNOWN:
        raise AttributeError("'%s' object has no attribute '%s'" % (kind, name))
    gap("pandas: %s.%s is not implemented" % (kind, name))


# --------------------------------------------------------------------------- values
def _isnull_scalar(x):
    if x is None:
        return True
    if isinstance(x, (float, np.floating)):
        return bool(x != x)
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return bool(np.isnat(x))
    return False


def _obj(seq):
    a = np.empty(len(seq), dtype=object)
    for i, x in enumerate(seq):
        a[i] = x
    return a


def _arr(x):
    """One-dimensional array with the dtype pandas would infer."""
    if isinstance(x, (Series, Index)):
        return x._v
    if isinstance(x, np.ndarray):
        if x.ndim != 1:
            raise ValueError("Data must be 1-dimensional")
        if x.dtype.kind in "US":
            return x.astype(object)
        return x
    if isinstance(x, range):
        return np.arange(x.start, x.stop, x.step, dtype=np.int64)
    x = list(x)
    isb = [isinstance(v, (bool, np.bool_)) for v in x]
    if x and all(isb):
        return np.array(x, dtype=bool)
    num = [isinstance(v, (numbers.Real, np.number)) and not b and not isinstance(v, (np.complexfloating,)) for v, b in zip(x, isb)]
    if x and all(num) and all(isinstance(v, (int, float, np.number)) for v in x):
        if all(isinstance(v, (int, np.integer)) for v in x):
            try:
                return np.array([int(v) for v in x], dtype=np.int64)
            except OverflowError:
                return _obj(x)
        return np.array([float(v) for v in x], dtype=float)
    if x and all(n or v is None for n, v in zip(num, x)) and any(num):
        return np.array([np.nan if v is None else float(v) for v in x], dtype=float)
    return _obj(x)


def _py(v):
    return v


def _common(arrays):
    dts = [a.dtype for a in arrays]
    if not dts:
        return np.dtype(float)
    if all(d == dts[0] for d in dts):
        return dts[0]
    if all(d.kind in "iuf" for d in dts):
        return np.result_type(*dts)
    return np.dtype(object)


def _same(a, b):
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:  # noqa
        return False


# --------------------------------------------------------------------------- Index
class Index:
    def __init__(self, data=(), dtype=None, name=None, copy=False):
        if isinstance(data, Index) and name is None:
            name = data.name
        if dtype is None and isinstance(data, np.ndarray) and data.dtype == object:
            data = list(data)
        if not isinstance(data, (np.ndarray, Index, Series, range)):
            data = list(data)
            if data and all(isinstance(v, tuple) for v in data) and type(self) is Index:
                gap("pandas: an Index of tuples becomes a MultiIndex")
        v = _arr(data)
        if dtype is not None:
            v = v.astype(dtype)
        self._v = v
        self.name = name

    def __getattr__(self, n):
        _unknown(self, n, type(self).__name__)

    @property
    def values(self):
        return self._v

    @property
    def dtype(self):
        return self._v.dtype

    @property
    def names(self):
        return [self.name]

    @names.setter
    def names(self, v):
        self.name, = v

    @property
    def shape(self):
        return (len(self._v),)

    size = property(lambda self: len(self._v))
    ndim = property(lambda self: 1)
    empty = property(lambda self: len(self._v) == 0)
    nlevels = property(lambda self: 1)
    is_unique = property(lambda self: len(set(self)) == len(self))
    has_duplicates = property(lambda self: not self.is_unique)

    def __iter__(self):
        return iter(self._v.tolist() if self._v.dtype != object else list(self._v))

    def __len__(self):
        return len(self._v)

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    def tolist(self):
        return list(self)

    to_list = tolist

    def to_numpy(self, dtype=None, copy=False):
        a = self._v if dtype is None else self._v.astype(dtype)
        return a.copy() if copy else a

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self._v[k]
        if isinstance(k, slice):
            return self._new(self._v[k])
        k = np.asarray(k)
        if k.size == 0:
            k = k.astype(int)
        return self._new(self._v[k])

    def _new(self, v):
        return Index(v, name=self.name) if v.dtype != object else _raw_index(v, self.name)

    def _cmp(self, other, op):
        if isinstance(other, (Index, Series, np.ndarray, list)):
            if len(other) != len(self):
                raise ValueError("Lengths must match to compare")
            return np.array([bool(op(a, b)) for a, b in zip(self, list(other))], dtype=bool)
        return np.array([bool(op(a, other)) for a in self], dtype=bool)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None

    def _arith(self, o, op):
        return Index(op(self._v, o._v if isinstance(o, (Index, Series)) else o), name=self.name)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __contains__(self, k):
        hash(k)
        return k in set(self)

    def get_loc(self, k):
        hits = [i for i, x in enumerate(self) if _same(x, k)]
        if not hits:
            raise KeyError(k)
        if len(hits) > 1:
            gap("pandas: get_loc of a repeated label")
        return hits[0]

    def _locate(self, k):
        return [i for i, x in enumerate(self) if _same(x, k)]

    def sort_values(self, ascending=True, return_indexer=False):
        if return_indexer:
            gap("Index.sort_values(return_indexer)")
        return self._new(_sorted(self._v, ascending))

    def unique(self):
        return self._new(unique(self._v))

    def isin(self, vals):
        s = list(vals)
        return np.array([any(_same(x, y) for y in s) for x in self], dtype=bool)

    def equals(self, o):
        return isinstance(o, Index) and len(o) == len(self) and all(_same(a, b) for a, b in zip(self, o))

    def difference(self, o, sort=None):
        o = set(o)
        return Index(sorted({x for x in self if x not in o}))

    def union(self, o, sort=None):
        return Index(sorted(set(self) | set(o)))

    def intersection(self, o, sort=None):
        o = set(o)
        return Index([x for x in self if x in o])

    def map(self, f):
        return Index([f[x] if isinstance(f, dict) else f(x) for x in self])

    def astype(self, dtype):
        return Index(self._v.astype(dtype if dtype is not str else object) if dtype is not str else [str(x) for x in self])

    def copy(self, deep=False, name=None):
        return self._new(self._v.copy())

    def to_series(self):
        return Series(self._v, index=self)

    def drop(self, labels):
        labels = labels if isinstance(labels, (list, tuple, set, Index)) else [labels]
        miss = [x for x in labels if x not in self]
        if miss:
            raise KeyError("%r not found in axis" % miss)
        return Index([x for x in self if x not in set(labels)])

    def append(self, o):
        return Index(list(self) + list(o))

    def min(self, out=None, **kw):
        return min(self)

    def max(self, out=None, **kw):
        return max(self)

    is_monotonic_increasing = property(lambda self: all(a <= b for a, b in zip(list(self), list(self)[1:])))
    is_monotonic = is_monotonic_increasing
    is_monotonic_decreasing = property(lambda self: all(a >= b for a, b in zip(list(self), list(self)[1:])))

    def __repr__(self):
        return "Index(%r, dtype=%s, name=%r)" % (list(self), self.dtype, self.name)

    def __deepcopy__(self, memo):
        return self.copy()


def _raw_index(v, name=None):
    i = Index.__new__(Index)
    i._v = v
    i.name = name
    return i


class RangeIndex(Index):
    def __init__(self, start=0, stop=None, step=1, name=None):
        if stop is None:
            start, stop = 0, start
        super().__init__(np.arange(start, stop, step, dtype=np.int64), name=name)


Int64Index = Index


class MultiIndex(Index):
    def __init__(self, levels=None, codes=None, names=None):
        gap("pandas: MultiIndex(levels, codes)")

    @classmethod
    def _make(cls, tuples, names):
        m = cls.__new__(cls)
        m._v = _obj([tuple(t) for t in tuples])
        m._names = list(names)
        return m

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        its = [list(i) for i in iterables]
        if not its:
            raise ValueError("Must pass non-zero number of levels/codes")
        out = [()]
        for it in its:
            out = [t + (x,) for t in out for x in it]
        return cls._make(out, names if names is not None else [None] * len(its))

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        tuples = [tuple(t) for t in tuples]
        if not tuples:
            raise TypeError("Cannot infer number of levels from empty list")
        return cls._make(tuples, names if names is not None else [None] * len(tuples[0]))

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        arrays = [list(a) for a in arrays]
        return cls._make(list(zip(*arrays)), names if names is not None else [None] * len(arrays))

    @classmethod
    def from_frame(cls, df, sortorder=None, names=None):
        if not isinstance(df, DataFrame):
            raise TypeError("Input must be a DataFrame")
        cols = [c for c, _ in df.items()]
        return cls._make(list(zip(*[list(s) for _, s in df.items()])), names if names is not None else cols)

    @property
    def names(self):
        return list(self._names)

    @names.setter
    def names(self, v):
        self._names = list(v)

    @property
    def name(self):
        return None

    @name.setter
    def name(self, v):
        if v is not None:
            gap("MultiIndex.name")

    nlevels = property(lambda self: len(self._names))

    @property
    def levels(self):
        return [Index(sorted({t[i] for t in self._v})) for i in range(self.nlevels)]

    def get_level_values(self, k):
        i = self._names.index(k) if k in self._names else k
        return Index([t[i] for t in self._v], name=self._names[i])

    def _new(self, v):
        return MultiIndex._make(list(v), self._names)

    def _locate(self, k):
        if isinstance(k, tuple) and len(k) == self.nlevels:
            return [i for i, t in enumerate(self._v) if all(_same(a, b) for a, b in zip(t, k))]
        if len(k if isinstance(k, tuple) else (k,)) > self.nlevels or not any(_same(t[0], (k if isinstance(k, tuple) else (k,))[0]) for t in self._v if k != ()):
            raise KeyError(k)
        gap("pandas: partial key %r on a MultiIndex" % (k,))

    def get_loc(self, k):
        h = self._locate(k)
        if not h:
            raise KeyError(k)
        return h[0]


def _sorted(v, ascending=True):
    if v.dtype == object:
        return _obj(sorted(v, reverse=not ascending))
    s = np.sort(v, kind="stable")
    return s if ascending else s[::-1]


def _as_index(x, n=None):
    if x is None:
        return RangeIndex(n)
    if isinstance(x, Index):
        return x
    if isinstance(x, (list, tuple)) and x and all(isinstance(t, tuple) for t in x):
        return MultiIndex.from_tuples(x)
    return Index(x)


# --------------------------------------------------------------------------- operators
def _binops(cls):
    import operator as o
    table = {"__add__": o.add, "__sub__": o.sub, "__mul__": o.mul, "__truediv__": o.truediv, "__floordiv__": o.floordiv,
             "__mod__": o.mod, "__pow__": o.pow, "__and__": o.and_, "__or__": o.or_, "__xor__": o.xor,
             "__eq__": o.eq, "__ne__": o.ne, "__lt__": o.lt, "__le__": o.le, "__gt__": o.gt, "__ge__": o.ge}
    for n, f in table.items():
        cmp = n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__")
        setattr(cls, n, (lambda f, cmp: lambda self, other: self._bin(other, f, cmp))(f, cmp))
    for n, f in (("__radd__", o.add), ("__rsub__", o.sub), ("__rmul__", o.mul), ("__rtruediv__", o.truediv), ("__rpow__", o.pow),
                 ("__rand__", o.and_), ("__ror__", o.or_)):
        setattr(cls, n, (lambda f: lambda self, other: self._bin(other, lambda a, b: f(b, a), False))(f))
    for n, f in (("add", o.add), ("sub", o.sub), ("subtract", o.sub), ("mul", o.mul), ("multiply", o.mul), ("div", o.truediv),
                 ("divide", o.truediv), ("truediv", o.truediv), ("pow", o.pow), ("eq", o.eq), ("ne", o.ne), ("lt", o.lt),
                 ("le", o.le), ("gt", o.gt), ("ge", o.ge)):
        if not hasattr(cls, "_no_" + n):
            setattr(cls, n, (lambda f, cmp: lambda self, other, axis="columns": self._binm(other, f, cmp, axis))(f, n in ("eq", "ne", "lt", "le", "gt", "ge")))
    cls.__hash__ = None
    return cls


def _elem(a, b, f, cmp):
    if a.dtype == object or (isinstance(b, np.ndarray) and b.dtype == object) or isinstance(b, str):
        bs = b if isinstance(b, np.ndarray) else [b] * len(a)
        out = [f(x, y) for x, y in zip(a, bs)]
        return np.array([bool(v) for v in out], dtype=bool) if cmp else _arr(out)
    return f(a, b)


# --------------------------------------------------------------------------- Series
class Series:
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False):
        if isinstance(data, dict):
            index_ = list(data.keys()) if index is None else list(index)
            data = [data.get(k, np.nan) for k in index_]
            index = _as_index(index_ if index is None else index)
        elif isinstance(data, Series):
            if index is None:
                index = data.index
            elif not _as_index(index).equals(data.index):
                gap("Series(Series, other index)")
            if name is None:
                name = data.name
        elif data is None:
            data = [] if index is None else np.full(len(index), np.nan)
        if not isinstance(data, (list, tuple, np.ndarray, Series, Index, range)):
            if isinstance(data, (str, bytes, numbers.Number, np.generic)) or not hasattr(data, "__iter__"):
                data = [data] * (len(index) if index is not None else 1)
            else:
                data = list(data)
        v = _arr(data)
        if dtype is not None:
            v = v.astype(object if dtype is str else dtype)
        if copy:
            v = v.copy()
        self.__dict__["_v"] = v
        ix = _as_index(index, len(v))
        if len(ix) != len(v):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), len(ix)))
        self.__dict__["_ix"] = ix
        self.__dict__["name"] = name

    def __getattr__(self, n):
        if not n.startswith("_") and n not in _KNOWN and n in [x for x in self._ix if isinstance(x, str)]:
            return self[n]
        _unknown(self, n, "Series")

    @property
    def values(self):
        return self._v

    array = values

    @property
    def index(self):
        return self._ix

    @index.setter
    def index(self, v):
        v = _as_index(v)
        if len(v) != len(self._v):
            raise ValueError("Length mismatch")
        self.__dict__["_ix"] = v

    dtype = property(lambda self: self._v.dtype)
    dtypes = dtype
    shape = property(lambda self: (len(self._v),))
    size = property(lambda self: len(self._v))
    ndim = property(lambda self: 1)
    empty = property(lambda self: len(self._v) == 0)
    is_unique = property(lambda self: len(unique(self._v)) == len(self._v))
    T = property(lambda self: self)
    hasnans = property(lambda self: bool(isnull(self._v).any()))
    is_monotonic_increasing = property(lambda self: all(a <= b for a, b in zip(self._v, self._v[1:])))

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v.tolist() if self._v.dtype != object else list(self._v))

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    def __contains__(self, k):
        return k in self._ix

    def _w(self, v, index=None, name=True):
        return Series(v, index=self._ix if index is None else index, name=self.name if name is True else name)

    def _bin(self, other, f, cmp):
        if isinstance(other, Series):
            if not self._ix.equals(other._ix):
                if cmp:
                    raise ValueError("Can only compare identically-labeled Series objects")
                gap("Series arithmetic with different indexes")
            other = other._v
        elif isinstance(other, Index):
            other = other._v
        elif isinstance(other, (list, tuple)):
            other = _arr(other)
        elif isinstance(other, DataFrame):
            return NotImplemented
        if isinstance(other, np.ndarray) and other.ndim == 1 and len(other) != len(self):
            raise ValueError("Lengths must match")
        return self._w(_elem(self._v, other, f, cmp))

    def _binm(self, other, f, cmp, axis):
        return self._bin(other, f, cmp)

    def __invert__(self):
        return self._w(~self._v)

    def __neg__(self):
        return self._w(-self._v)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def __float__(self):
        return float(self.item())

    def item(self):
        if len(self._v) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._v.tolist()[0]

    def _get(self, k):
        h = self._ix._locate(k)
        if not h:
            raise KeyError(k)
        return self._v[h[0]] if len(h) == 1 else self._take(h)

    def _take(self, pos):
        pos = np.asarray(pos)
        if pos.size == 0:
            pos = pos.astype(int)
        return Series(self._v[pos], index=self._ix[pos], name=self.name)

    def __getitem__(self, k):
        if isinstance(k, Series) and k.dtype == bool:
            return self._take(np.where(k._v)[0])
        if isinstance(k, np.ndarray) and k.dtype == bool:
            return self._take(np.where(k)[0])
        if isinstance(k, slice):
            return self._take(np.arange(len(self))[k])
        if isinstance(k, (list, np.ndarray, Index)):
            return self._take([p for x in k for p in _need(self._ix, x)])
        try:
            return self._get(k)
        except KeyError:
            if isinstance(k, (int, np.integer)) and not isinstance(k, bool) and self._ix.dtype.kind not in "iuf":
                return self._v[k]
            raise

    def __setitem__(self, k, v):
        if isinstance(k, (Series, np.ndarray)) and np.asarray(k).dtype == bool:
            self._v[np.asarray(k)] = v
            return
        if isinstance(k, slice):
            n = len(range(*k.indices(len(self))))
            if not all(x is None or isinstance(x, (int, np.integer)) for x in (k.start, k.stop, k.step)):
                gap("Series[label slice] = ...")
            a = np.asarray(v._v if isinstance(v, Series) else v)
            if a.ndim == 1 and n == len(self) and a.shape[0] == n:
                # setting every element of a Series by an array: pandas 1.0-1.2 take the array's type
                self.__dict__["_v"] = a.astype(object) if a.dtype.kind in "US" else a.copy()
                return
            if a.dtype.kind == "f" and self._v.dtype.kind in "iub":
                self.__dict__["_v"] = self._v.astype(a.dtype)
            elif a.dtype.kind in "OUS" and self._v.dtype != object:
                self.__dict__["_v"] = self._v.astype(object)
            self._v[k] = v
            return
        h = self._ix._locate(k)
        if not h:
            if isinstance(k, (int, np.integer)) and self._ix.dtype.kind not in "iuf":
                gap("Series[position] = ...")
            self.__dict__["_v"] = _arr(list(self._v) + [v])
            self.__dict__["_ix"] = _as_index(list(self._ix) + [k])
            return
        need = np.asarray(v)
        if need.ndim == 0 and need.dtype.kind == "f" and self._v.dtype.kind in "iu" and float(need) != int(need):
            self.__dict__["_v"] = self._v.astype(float)
        elif need.ndim == 0 and need.dtype.kind in "OUS" and self._v.dtype != object:
            self.__dict__["_v"] = self._v.astype(object)
        self._v[h] = v

    @property
    def loc(self):
        return _SLoc(self)

    @property
    def iloc(self):
        return _SILoc(self)

    @property
    def at(self):
        return _SLoc(self)

    @property
    def iat(self):
        return _SILoc(self)

    def get(self, k, default=None):
        return self._get(k) if k in self._ix else default

    def items(self):
        return zip(list(self._ix), list(self))

    iteritems = items

    def keys(self):
        return self._ix

    def to_dict(self):
        return dict(self.items())

    def tolist(self):
        return list(self)

    to_list = tolist

    def to_numpy(self, dtype=None, copy=False):
        a = self._v if dtype is None else self._v.astype(dtype)
        return a.copy() if copy else a

    def to_frame(self, name=None):
        return DataFrame({self.name if name is None else name: self._v}, index=self._ix)

    def ravel(self):
        return self._v

    def copy(self, deep=True):
        return self._w(self._v.copy() if deep else self._v)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True):
        if dtype is str:
            return self._w(_obj([str(x) for x in self]))
        return self._w(self._v.astype(dtype))

    def map(self, arg, na_action=None):
        if isinstance(arg, Series):
            arg = arg.to_dict()
        if isinstance(arg, dict):
            vals = [arg[x] if not _isnull_scalar(x) and x in arg else arg.get(x, np.nan) for x in self]
        else:
            vals = [arg(x) for x in self]
        return self._w(_arr(vals))

    def apply(self, func, convert_dtype=True, args=(), **kw):
        return self._w(_arr([func(x, *args, **kw) for x in self]))

    def unique(self):
        return unique(self._v)

    def nunique(self, dropna=True):
        u = unique(self._v)
        return len([x for x in u if not (dropna and _isnull_scalar(x))])

    def value_counts(self, normalize=False, sort=True, ascending=False, dropna=True):
        order, cnt = [], {}
        for x in self:
            if dropna and _isnull_scalar(x):
                continue
            if x not in cnt:
                order.append(x)
            cnt[x] = cnt.get(x, 0) + 1
        if sort:
            order.sort(key=lambda x: cnt[x], reverse=not ascending)
        vals = [cnt[x] for x in order]
        if normalize:
            vals = [v / sum(vals) for v in vals]
        return Series(_arr(vals), index=Index(order), name=self.name)

    def isin(self, vals):
        s = list(vals)
        return self._w(np.array([any(_same(x, y) for y in s) for x in self], dtype=bool))

    def isnull(self):
        return self._w(isnull(self._v))

    isna = isnull

    def notnull(self):
        return self._w(~isnull(self._v))

    notna = notnull

    def dropna(self):
        return self[self.notnull()]

    def fillna(self, v):
        m = isnull(self._v)
        return self._w(_arr([v if b else x for x, b in zip(self, m)]))

    def replace(self, a, b=None):
        m = a if isinstance(a, dict) else {a: b}
        return self._w(_arr([m.get(x, x) for x in self]))

    def any(self, axis=None, out=None, **kw):
        return bool(np.any(self._v.astype(bool)))

    def all(self, axis=None, out=None, **kw):
        return bool(np.all(self._v.astype(bool)))

    def _nn(self):
        m = ~isnull(self._v)
        return self._v[m]

    def sum(self, axis=None, skipna=True, out=None, **kw):
        return self._nn().sum() if len(self._nn()) else 0

    def mean(self, axis=None, out=None, **kw):
        return self._nn().astype(float).mean() if len(self._nn()) else np.nan

    def std(self, axis=None, ddof=1, out=None, **kw):
        n = self._nn().astype(float)
        return n.std(ddof=ddof) if len(n) > ddof else np.nan

    def var(self, axis=None, ddof=1, out=None, **kw):
        n = self._nn().astype(float)
        return n.var(ddof=ddof) if len(n) > ddof else np.nan

    def max(self, axis=None, out=None, **kw):
        n = self._nn()
        return np.nan if not len(n) else (max(n) if n.dtype == object else n.max())

    def min(self, axis=None, out=None, **kw):
        n = self._nn()
        return np.nan if not len(n) else (min(n) if n.dtype == object else n.min())

    def count(self):
        return len(self._nn())

    def prod(self, axis=None, out=None, **kw):
        return self._nn().prod()

    def cumsum(self, axis=None, out=None, **kw):
        return self._w(self._v.cumsum())

    def median(self):
        return float(np.median(self._nn())) if len(self._nn()) else np.nan

    def quantile(self, q=0.5):
        return np.quantile(self._nn(), q)

    def abs(self):
        return self._w(np.abs(self._v))

    def round(self, d=0):
        return self._w(np.round(self._v, d))

    def clip(self, lower=None, upper=None):
        return self._w(np.clip(self._v, lower, upper))

    def diff(self, periods=1):
        out = np.full(len(self), np.nan)
        out[periods:] = self._v[periods:] - self._v[:-periods]
        return self._w(out)

    def shift(self, periods=1):
        v = self._v.astype(float) if self._v.dtype.kind in "iuf" else self._v.astype(object)
        out = np.empty_like(v)
        out[:] = np.nan
        if periods >= 0:
            out[periods:] = v[:len(v) - periods]
        else:
            out[:periods] = v[-periods:]
        return self._w(out)

    def argmax(self, axis=None, out=None, **kw):
        return int(np.argmax(self._v))

    def argmin(self, axis=None, out=None, **kw):
        return int(np.argmin(self._v))

    def argsort(self, kind="quicksort"):
        return self._w(np.argsort(self._v, kind="stable"))

    def idxmax(self, axis=0, skipna=True):
        if not len(self):
            raise ValueError("attempt to get argmax of an empty sequence")
        if np.all(isnull(self._v)):
            return np.nan
        return list(self._ix)[int(np.nanargmax(self._v))]

    def idxmin(self, axis=0, skipna=True):
        if not len(self):
            raise ValueError("attempt to get argmin of an empty sequence")
        return list(self._ix)[int(np.nanargmin(self._v))]

    def sort_values(self, ascending=True, kind=None):
        o = sorted(range(len(self)), key=lambda i: self._v[i], reverse=not ascending)
        return self._take(o)

    def sort_index(self, ascending=True):
        ix = list(self._ix)
        return self._take(sorted(range(len(ix)), key=lambda i: ix[i], reverse=not ascending))

    def reindex(self, index):
        return Series([self.get(k, np.nan) for k in index], index=_as_index(index), name=self.name)

    def rename(self, index=None, inplace=False):
        if inplace:
            gap("Series.rename(inplace)")
        if isinstance(index, dict) or callable(index):
            f = index if callable(index) else lambda x: index.get(x, x)
            return Series(self._v, index=Index([f(x) for x in self._ix]), name=self.name)
        return Series(self._v, index=self._ix, name=index)

    def reset_index(self, drop=False, name=None):
        if not drop:
            gap("Series.reset_index(drop=False)")
        return Series(self._v, name=self.name)

    def drop(self, labels):
        labels = labels if isinstance(labels, list) else [labels]
        ix = list(self._ix)
        for x in labels:
            if x not in self._ix:
                raise KeyError(x)
        return self._take([i for i, k in enumerate(ix) if k not in labels])

    def head(self, n=5):
        return self._take(np.arange(len(self))[:n])

    def tail(self, n=5):
        return self._take(np.arange(len(self))[-n:] if n else [])

    def equals(self, o):
        return isinstance(o, Series) and self._ix.equals(o._ix) and self.dtype == o.dtype and \
            all(_same(a, b) or (_isnull_scalar(a) and _isnull_scalar(b)) for a, b in zip(self, o))

    def dot(self, o):
        return self._v.dot(np.asarray(o))

    def where(self, cond, other=np.nan):
        return self._w(_arr([x if c else other for x, c in zip(self, list(cond))]))

    def mask(self, cond, other=np.nan):
        return self._w(_arr([other if c else x for x, c in zip(self, list(cond))]))

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def squeeze(self):
        return self

    def __repr__(self):
        return "Series(%r, name=%r, dtype=%s)" % (self.to_dict() if self._ix.is_unique else list(self.items()), self.name, self.dtype)


_binops(Series)


def _need(ix, k):
    h = ix._locate(k)
    if not h:
        raise KeyError("%r not in index" % (k,))
    return h


def _rows(ix, k):
    """Positions selected by a label selector; the second value says whether it was a single label."""
    if isinstance(k, slice):
        n = len(ix)
        if k.step not in (None, 1):
            gap("loc slice with a step")
        labels = list(ix)
        lo, hi = 0, n
        num = ix.dtype.kind in "iuf"
        if k.start is not None:
            h = ix._locate(k.start)
            lo = h[0] if h else (sum(1 for x in labels if x < k.start) if num and ix.is_monotonic_increasing else _raise(KeyError(k.start)))
        if k.stop is not None:
            h = ix._locate(k.stop)
            hi = h[-1] + 1 if h else (sum(1 for x in labels if x <= k.stop) if num and ix.is_monotonic_increasing else _raise(KeyError(k.stop)))
        return list(range(lo, hi)), False
    if isinstance(k, (Series, np.ndarray, list, Index)):
        a = np.asarray(k._v if isinstance(k, (Series, Index)) else k)
        if a.dtype == bool and not (isinstance(k, list) and ix.dtype == bool):
            if len(a) != len(ix):
                raise IndexError("Boolean index has wrong length")
            return list(np.where(a)[0]), False
        return [p for x in list(k) for p in _need(ix, x)], False
    if callable(k):
        gap("loc with a callable")
    if isinstance(k, (bool, np.bool_)) and ix.dtype != bool and not any(isinstance(x, (bool, np.bool_)) for x in ix):
        raise KeyError("%s: boolean label can not be used without a boolean index" % k)
    return _need(ix, k), True


def _raise(e):
    raise e


class _SLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        pos, one = _rows(self.s._ix, k)
        if one and len(pos) == 1:
            return self.s._v[pos[0]]
        return self.s._take(pos)

    def __setitem__(self, k, v):
        pos, _ = _rows(self.s._ix, k)
        self.s._v[pos] = v


class _SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self.s._v[k]
        return self.s._take(np.arange(len(self.s))[k])

    def __setitem__(self, k, v):
        self.s._v[k] = v


# --------------------------------------------------------------------------- DataFrame
def _is_num(dt):
    return dt.kind in "iufc"


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        d = self.__dict__
        d["_extra"] = {}
        block = None
        if isinstance(data, DataFrame):
            index = data.index if index is None else index
            if columns is None or list(columns) == list(data.columns):
                cols, columns = list(data._cols), data.columns
            else:
                cols = [data[c]._v for c in columns]
            if not _as_index(index).equals(data.index):
                gap("DataFrame(DataFrame, other index)")
        elif isinstance(data, Series):
            cols = [data._v]
            columns = [data.name if data.name is not None else 0] if columns is None else columns
            index = data.index if index is None else index
        elif isinstance(data, np.ndarray):
            if data.ndim == 1:
                data = data.reshape(-1, 1)
            if data.ndim != 2:
                raise ValueError("Must pass 2-d input. shape=%s" % (data.shape,))
            if data.dtype.kind in "US":
                data = data.astype(object)
            if dtype is not None:
                data = data.astype(dtype)
            if copy:
                data = data.copy()
            if data.dtype == object:
                cols = [_arr(list(data[:, j])) for j in range(data.shape[1])]
            else:
                block = data
                cols = [data[:, j] for j in range(data.shape[1])]
            if index is not None and len(index) != data.shape[0]:
                raise ValueError("Shape of passed values is %s, indices imply (%d, ...)" % (data.shape, len(index)))
            if columns is not None and len(columns) != data.shape[1]:
                raise ValueError("Shape of passed values is %s, indices imply (..., %d)" % (data.shape, len(columns)))
            n = data.shape[0]
            index = _as_index(index, n)
        elif isinstance(data, dict):
            keys = list(data.keys())
            if columns is not None:
                sel = list(columns)
            else:
                sel = keys
                columns = _as_index(keys) if keys else Index([])
            n = None
            for k in keys:
                v = data[k]
                if isinstance(v, Series) and index is None:
                    index = v.index
                if hasattr(v, "__len__") and not isinstance(v, (str, bytes, dict)):
                    if n is not None and n != len(v):
                        raise ValueError("All arrays must be of the same length")
                    n = len(v)
                elif isinstance(v, dict):
                    index = list(v.keys()) if index is None else index
            if index is not None:
                index = _as_index(index)
                n = len(index)
            if n is None:
                if keys:
                    raise ValueError("If using all scalar values, you must pass an index")
                n = 0
            cols = []
            for k in sel:
                v = data.get(k, np.nan)
                if isinstance(v, Series) and not v.index.equals(_as_index(index, n)):
                    gap("DataFrame(dict of Series with different indexes)")
                if isinstance(v, dict):
                    v = [v.get(i, np.nan) for i in index]
                if not hasattr(v, "__len__") or isinstance(v, (str, bytes)):
                    v = [v] * n
                a = _arr(v)
                cols.append(a.copy() if isinstance(v, (np.ndarray, Series, Index)) else a)
                if len(a) != n:
                    raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(a), n))
        elif data is None:
            columns = [] if columns is None else columns
            index = [] if index is None else index
            cols = [_obj([np.nan] * len(index)) for _ in columns]
        else:
            rows = list(data)
            if rows and isinstance(rows[0], Series):
                if index is None and rows[0].name is not None:
                    index = [r.name for r in rows]
                rows = [r.to_dict() for r in rows]
            if rows and isinstance(rows[0], dict):
                if columns is None:
                    columns = []
                    for r in rows:
                        columns.extend(k for k in r if k not in columns)
                cols = [_arr([r.get(c, np.nan) for r in rows]) for c in columns]
            elif rows and isinstance(rows[0], (list, tuple, np.ndarray)):
                w = max(len(r) for r in rows)
                if columns is not None and len(columns) != w:
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(columns), w))
                cols = [_arr([r[j] if j < len(r) else None for r in rows]) for j in range(w)]
            else:
                cols = [_arr(rows)] if rows or columns is None or len(columns) == 1 else [_obj([]) for _ in columns]
                if not rows and columns is None:
                    cols = []
            index = _as_index(index, len(rows))
            if len(index) != len(rows):
                raise ValueError("Shape of passed values is %s, indices imply %s" % (len(rows), len(index)))
        if dtype is not None:
            cols = [c.astype(dtype) for c in cols]
            block = None
        n = len(cols[0]) if cols else (len(index) if index is not None else 0)
        columns = _as_index(columns, len(cols))
        self._set(columns, cols, _as_index(index, n), block)

    def _set(self, columns, cols, index, block=None):
        d = self.__dict__
        if block is None and cols and all(c.dtype == cols[0].dtype for c in cols) and cols[0].dtype != object:
            block = np.empty((len(cols), len(cols[0])), dtype=cols[0].dtype).T
            for j, c in enumerate(cols):
                block[:, j] = c
            cols = [block[:, j] for j in range(len(cols))]
        d["_columns"], d["_cols"], d["_index"], d["_block"] = columns, list(cols), index, block

    @classmethod
    def _make(cls, columns, cols, index, block=None):
        f = cls.__new__(cls)
        f.__dict__["_extra"] = {}
        f._set(columns, cols, index, block)
        return f

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        if orient == "index":
            keys = list(data)
            return cls([data[k] for k in keys], index=keys, columns=columns)
        return cls(data, dtype=dtype, columns=columns)

    @classmethod
    def from_records(cls, data, columns=None, index=None):
        return cls(list(data), columns=columns, index=index)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ex = self.__dict__.get("_extra", {})
        if n in ex:
            return ex[n]
        if "_columns" in self.__dict__ and n in [c for c in self._columns if isinstance(c, str)]:
            return self[n]
        _unknown(self, n, "DataFrame")

    def __setattr__(self, n, v):
        if n in ("columns", "index"):
            object.__setattr__(self, n, v)
        elif n in [c for c in self._columns if isinstance(c, str)]:
            self[n] = v
        else:
            self._extra[n] = v

    # ---- axes
    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, v):
        v = _as_index(v)
        if len(v) != len(self._cols):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._cols), len(v)))
        self.__dict__["_columns"] = v

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        v = _as_index(v)
        if len(v) != len(self._index):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._index), len(v)))
        self.__dict__["_index"] = v

    @property
    def axes(self):
        return [self._index, self._columns]

    @property
    def shape(self):
        return (len(self._index), len(self._cols))

    size = property(lambda self: len(self._index) * len(self._cols))
    ndim = property(lambda self: 2)
    empty = property(lambda self: self.size == 0)

    @property
    def dtypes(self):
        return Series(_obj([c.dtype for c in self._cols]), index=self._columns)

    @property
    def values(self):
        if self._block is not None:
            return self._block
        dt = _common(self._cols)
        out = np.empty((len(self._cols), len(self._index)), dtype=dt).T
        for j, c in enumerate(self._cols):
            out[:, j] = c
        return out

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        v = self.values
        if dtype is not None:
            v = v.astype(dtype)
        return v.copy() if copy else v

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    @property
    def T(self):
        v = self.values
        return DataFrame(v.T.copy(), index=self._columns, columns=self._index)

    def transpose(self):
        return self.T

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(self._columns)

    def __contains__(self, k):
        return k in self._columns

    def keys(self):
        return self._columns

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def _pos(self, k):
        h = self._columns._locate(k) if not (isinstance(self._columns, MultiIndex) and not isinstance(k, tuple)) else self._columns._locate(k)
        if not h:
            raise KeyError(k)
        return h

    def _ser(self, j):
        lab = list(self._columns)[j]
        s = Series.__new__(Series)
        s.__dict__.update(_v=self._cols[j], _ix=self._index, name=lab)
        return s

    def _colsel(self, pos):
        pos = [int(p) for p in pos]
        cols = [self._cols[p].copy() for p in pos]
        return DataFrame._make(self._columns[np.array(pos, dtype=int)], cols, self._index)

    def _rowsel(self, pos):
        if isinstance(pos, slice):
            blk = None if self._block is None else self._block[pos]
            cols = [c[pos] for c in self._cols] if blk is None else [blk[:, j] for j in range(len(self._cols))]
            return DataFrame._make(self._columns, cols, self._index[pos], blk)
        pos = np.asarray(pos, dtype=int)
        return DataFrame._make(self._columns, [c[pos] for c in self._cols], self._index[pos])

    def __getitem__(self, k):
        if isinstance(k, DataFrame):
            gap("DataFrame[DataFrame]")
        if isinstance(k, slice):
            if isinstance(k.start, str) or isinstance(k.stop, str):
                return self.loc[k]
            return self._rowsel(k)
        if isinstance(k, (list, np.ndarray, Series, Index, set)):
            if isinstance(k, set):
                k = list(k)
            a = np.asarray(k._v if isinstance(k, (Series, Index)) else k)
            if a.dtype == bool and len(a):
                if len(a) != len(self):
                    raise ValueError("Item wrong length %d instead of %d." % (len(a), len(self)))
                return self._rowsel(np.where(a)[0])
            lab = list(k)
            miss = [x for x in lab if not self._columns._locate(x)]
            if miss:
                raise KeyError("%r not in index" % (miss,))
            return self._colsel([p for x in lab for p in self._columns._locate(x)])
        if isinstance(k, tuple) and not isinstance(self._columns, MultiIndex) and k not in list(self._columns):
            raise KeyError(k)
        hash(k)
        h = self._pos(k)
        return self._ser(h[0]) if len(h) == 1 else self._colsel(h)

    def get(self, k, default=None):
        return self[k] if k in self._columns else default

    def __setitem__(self, k, v):
        if isinstance(k, (Series, np.ndarray)) and np.asarray(k).dtype == bool:
            for c in self._cols:
                c[np.asarray(k)] = v
            return
        if isinstance(k, DataFrame):
            gap("DataFrame[DataFrame] = ...")
        if isinstance(k, (list, Index)):
            k = list(k)
            vals = v
            if isinstance(v, DataFrame):
                vals = [v._cols[j] for j in range(len(k))]
            elif isinstance(v, np.ndarray) and v.ndim == 2:
                vals = [v[:, j] for j in range(len(k))]
            else:
                vals = [v] * len(k)
            for kk, vv in zip(k, vals):
                self[kk] = vv
            return
        n = len(self._index)
        if isinstance(v, DataFrame):
            v = v._ser(0)
        if isinstance(v, Series):
            if not v.index.equals(self._index) and len(self._cols):
                v = v.reindex(self._index)
            a = v._v.copy()
        elif isinstance(v, (list, tuple, np.ndarray, Index, range)):
            a = _arr(v)
            a = a.copy() if isinstance(v, np.ndarray) else a
            if not self._cols and not n:
                self.__dict__["_index"] = RangeIndex(len(a))
                n = len(a)
            if len(a) != n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(a), n))
        else:
            a = _arr([v] * n) if n else _obj([])
        cols = list(self._cols)
        h = self._columns._locate(k) if not isinstance(self._columns, MultiIndex) else self._columns._locate(k)
        if h:
            for j in h:
                cols[j] = a
            columns = self._columns
        else:
            cols.append(a)
            columns = Index(list(self._columns) + [k], name=self._columns.name)
        # other columns keep their storage, as in pandas
        self.__dict__.update(_columns=columns, _cols=cols, _block=None)

    def __delitem__(self, k):
        h = self._pos(k)
        keep = [j for j in range(len(self._cols)) if j not in h]
        self.__dict__.update(_columns=self._columns[np.array(keep, dtype=int)], _cols=[self._cols[j] for j in keep], _block=None)

    def pop(self, k):
        s = self[k]
        del self[k]
        return s

    def insert(self, loc, column, value, allow_duplicates=False):
        if column in self._columns:
            raise ValueError("cannot insert %s, already exists" % column)
        self[column] = value
        order = list(range(len(self._cols) - 1))
        order.insert(loc, len(self._cols) - 1)
        self.__dict__.update(_columns=self._columns[np.array(order, dtype=int)], _cols=[self._cols[j] for j in order], _block=None)

    def assign(self, **kw):
        f = self.copy()
        for k, v in kw.items():
            f[k] = v(f) if callable(v) else v
        return f

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def at(self):
        return _At(self)

    @property
    def iat(self):
        return _ILoc(self)

    # ---- copies
    def copy(self, deep=True):
        blk = self._block
        if deep:
            if blk is not None:
                blk = blk.copy(order="K")
                cols = [blk[:, j] for j in range(len(self._cols))]
            else:
                cols = [c.copy() for c in self._cols]
        else:
            cols = list(self._cols)
        f = DataFrame.__new__(DataFrame)
        f.__dict__.update(_extra=dict(self._extra), _columns=self._columns, _cols=cols, _index=self._index, _block=blk)
        return f

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy(deep=False)

    # ---- iteration
    def items(self):
        for j, c in enumerate(list(self._columns)):
            yield c, self._ser(j)

    iteritems = items

    def _row(self, i):
        dt = _common(self._cols)
        v = np.empty(len(self._cols), dtype=dt)
        for j, c in enumerate(self._cols):
            x = c[i]
            v[j] = x.item() if dt == object and isinstance(x, np.generic) else x
        s = Series.__new__(Series)
        s.__dict__.update(_v=v, _ix=self._columns, name=list(self._index)[i])
        return s

    def iterrows(self):
        for i, lab in enumerate(list(self._index)):
            yield lab, self._row(i)

    def itertuples(self, index=True, name="Pandas"):
        from collections import namedtuple
        names = (["Index"] if index else []) + [str(c) for c in self._columns]
        cols = ([list(self._index)] if index else []) + [list(s) for _, s in self.items()]
        if name is None:
            yield from zip(*cols)
            return
        T = namedtuple(name, names, rename=True)
        for r in zip(*cols):
            yield T(*r)

    # ---- functions
    def apply(self, func, axis=0, raw=False, result_type=None, args=(), **kw):
        if raw or result_type is not None:
            gap("DataFrame.apply(raw/result_type)")
        if axis in (1, "columns"):
            if not len(self):
                gap("DataFrame.apply(axis=1) without rows")
            res = [func(self._row(i), *args, **kw) for i in range(len(self))]
            labels = self._index
        else:
            res = [func(self._ser(j), *args, **kw) for j in range(len(self._cols))]
            labels = self._columns
        if res and isinstance(res[0], Series):
            if axis in (1, "columns"):
                f = DataFrame([r.to_dict() for r in res])
                f.index = labels
                return f
            f = DataFrame({i: r for i, r in enumerate(res)})
            f.columns = labels
            return f
        return Series(_arr(res), index=labels)

    def applymap(self, func):
        return DataFrame._make(self._columns, [_arr([func(x) for x in s]) for _, s in self.items()], self._index)

    def agg(self, func, axis=0):
        if callable(func):
            return self.apply(func, axis=axis)
        if isinstance(func, str):
            return getattr(self, func)(axis=axis)
        gap("DataFrame.agg")

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def select_dtypes(self, include=None, exclude=None):
        if include is None and exclude is None:
            raise ValueError("at least one of include or exclude must be nonempty")

        def match(dt, spec):
            spec = spec if isinstance(spec, (list, tuple, set)) else [spec]
            for s in spec:
                if s in ("number", np.number):
                    if _is_num(dt):
                        return True
                elif s in ("object", object, "O"):
                    if dt == object:
                        return True
                elif s in ("bool", bool, np.bool_):
                    if dt == bool:
                        return True
                elif s in ("float", float, "float64", np.floating):
                    if dt.kind == "f":
                        return True
                elif s in ("int", int, "int64", np.integer, "integer"):
                    if dt.kind in "iu" if s in (np.integer, "integer") else dt == np.int64:
                        return True
                elif s in ("category", "datetime", "datetime64", "timedelta", np.datetime64):
                    pass
                else:
                    gap("select_dtypes(%r)" % (s,))
            return False
        keep = [j for j, c in enumerate(self._cols)
                if (include is None or match(c.dtype, include)) and (exclude is None or not match(c.dtype, exclude))]
        return self._colsel(keep)

    def astype(self, dtype, copy=True):
        if isinstance(dtype, dict):
            cols = [self._ser(j).astype(dtype[c])._v if c in dtype else self._cols[j].copy() for j, c in enumerate(list(self._columns))]
        else:
            cols = [self._ser(j).astype(dtype)._v for j in range(len(self._cols))]
        return DataFrame._make(self._columns, cols, self._index)

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, copy=True):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper
        f = self if inplace else self.copy()

        def conv(m, ix):
            g = m if callable(m) else (lambda x: m.get(x, x))
            return Index([g(x) for x in ix], name=ix.name)
        if columns is not None:
            f.columns = conv(columns, f.columns)
        if index is not None:
            f.index = conv(index, f.index)
        return None if inplace else f

    def set_axis(self, labels, axis=0, inplace=False):
        f = self if inplace else self.copy()
        if axis in (1, "columns"):
            f.columns = labels
        else:
            f.index = labels
        return None if inplace else f

    def rename_axis(self, mapper=None, axis=0, **kw):
        if kw or not (mapper is None or isinstance(mapper, str)):
            gap("DataFrame.rename_axis")
        f = self.copy()
        if axis in (1, "columns"):
            f.__dict__["_columns"] = Index(list(f._columns), name=mapper)
        else:
            f.__dict__["_index"] = Index(list(f._index), name=mapper)
        return f

    def add_prefix(self, p):
        return self.rename(columns=lambda c: "%s%s" % (p, c))

    def add_suffix(self, p):
        return self.rename(columns=lambda c: "%s%s" % (c, p))

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels

        def aslist(x):
            return list(x) if isinstance(x, (list, tuple, set, Index, np.ndarray, Series)) else [x]
        f = self
        if columns is not None:
            lab = aslist(columns)
            miss = [x for x in lab if not f._columns._locate(x)]
            if miss and errors == "raise":
                raise KeyError("%r not found in axis" % miss)
            drop = {p for x in lab for p in f._columns._locate(x)}
            f = f._colsel([j for j in range(len(f._cols)) if j not in drop])
        if index is not None:
            lab = aslist(index)
            miss = [x for x in lab if not f._index._locate(x)]
            if miss and errors == "raise":
                raise KeyError("%r not found in axis" % miss)
            drop = {p for x in lab for p in f._index._locate(x)}
            f = f._rowsel([i for i in range(len(f._index)) if i not in drop])
        if inplace:
            self.__dict__.update(_columns=f._columns, _cols=f._cols, _index=f._index, _block=f._block)
            return None
        return f.copy() if f is self else f

    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        keys = keys if isinstance(keys, list) else [keys]
        if len(keys) != 1 or append:
            gap("DataFrame.set_index with several keys")
        k = keys[0]
        if isinstance(k, (Series, np.ndarray, Index)):
            gap("DataFrame.set_index(array)")
        s = self[k]
        f = self if inplace else self.copy()
        ix = Index(s._v.copy(), name=k)
        if drop:
            del f[k]
        f.__dict__["_index"] = ix
        if not inplace:
            f._set(f._columns, f._cols, ix)
        return None if inplace else f

    def reset_index(self, level=None, drop=False, inplace=False):
        f = self if inplace else self.copy()
        old = f._index
        f.__dict__["_index"] = RangeIndex(len(old))
        if not drop:
            f.insert(0, old.name if old.name is not None else "index", old._v)
        return None if inplace else f

    def reindex(self, labels=None, index=None, columns=None, axis=None, fill_value=np.nan):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        f = self
        if columns is not None:
            cols = []
            for c in columns:
                h = f._columns._locate(c)
                cols.append(f._cols[h[0]].copy() if h else _arr([fill_value] * len(f)))
            f = DataFrame._make(_as_index(list(columns)), cols, f._index)
        if index is not None:
            ser = [Series(c, index=f._index) for c in f._cols]
            f = DataFrame._make(f._columns, [_arr([s.get(k, fill_value) for k in index]) for s in ser], _as_index(list(index)))
        return f.copy() if f is self else f

    def sort_index(self, axis=0, ascending=True, inplace=False):
        if inplace:
            gap("sort_index(inplace)")
        if axis in (1, "columns"):
            lab = list(self._columns)
            return self._colsel(sorted(range(len(lab)), key=lambda i: lab[i], reverse=not ascending))
        lab = list(self._index)
        return self._rowsel(sorted(range(len(lab)), key=lambda i: lab[i], reverse=not ascending))

    def sort_values(self, by, axis=0, ascending=True):
        by = by if isinstance(by, list) else [by]
        c = [list(self[b]) for b in by]
        return self._rowsel(sorted(range(len(self)), key=lambda i: tuple(x[i] for x in c), reverse=not ascending))

    def head(self, n=5):
        return self._rowsel(slice(0, n))

    def tail(self, n=5):
        return self._rowsel(slice(max(0, len(self) - n), len(self)))

    def append_row(self, label):
        cols = [np.append(c.astype(float) if c.dtype.kind in "iuf" else c.astype(object), [np.nan]) for c in self._cols]
        return DataFrame._make(self._columns, cols, Index(list(self._index) + [label], name=self._index.name))

    def append(self, other, ignore_index=False):
        return concat([self] + (other if isinstance(other, list) else [other]), ignore_index=ignore_index)

    def take(self, pos, axis=0):
        return self._rowsel(list(pos)) if axis == 0 else self._colsel(list(pos))

    def isnull(self):
        return DataFrame._make(self._columns, [isnull(c) for c in self._cols], self._index)

    isna = isnull

    def notnull(self):
        return DataFrame._make(self._columns, [~isnull(c) for c in self._cols], self._index)

    notna = notnull

    def dropna(self):
        m = np.zeros(len(self), dtype=bool)
        for c in self._cols:
            m |= isnull(c)
        return self._rowsel(np.where(~m)[0])

    def fillna(self, v):
        return DataFrame._make(self._columns, [self._ser(j).fillna(v)._v for j in range(len(self._cols))], self._index)

    def drop_duplicates(self):
        seen, keep = set(), []
        for i, r in enumerate(zip(*[list(s) for _, s in self.items()])):
            if r not in seen:
                seen.add(r)
                keep.append(i)
        return self._rowsel(keep)

    def _reduce(self, name, axis, **kw):
        if axis in (1, "columns"):
            return Series(_arr([getattr(self._row(i), name)(**kw) for i in range(len(self))]), index=self._index)
        return Series(_arr([getattr(self._ser(j), name)(**kw) for j in range(len(self._cols))]), index=self._columns)

    def any(self, axis=0, out=None, **kw):
        return self.any(axis=0).any() if axis is None else self._reduce("any", axis)

    def all(self, axis=0, out=None, **kw):
        return self.all(axis=0).all() if axis is None else self._reduce("all", axis)

    def sum(self, axis=0, out=None, **kw):
        return self._reduce("sum", axis)

    def mean(self, axis=0, out=None, **kw):
        return self._reduce("mean", axis)

    def std(self, axis=0, ddof=1, out=None, **kw):
        return self._reduce("std", axis, ddof=ddof)

    def var(self, axis=0, ddof=1, out=None, **kw):
        return self._reduce("var", axis, ddof=ddof)

    def max(self, axis=0, out=None, **kw):
        return self._reduce("max", axis)

    def min(self, axis=0, out=None, **kw):
        return self._reduce("min", axis)

    def count(self, axis=0):
        return self._reduce("count", axis)

    def nunique(self, axis=0):
        return self._reduce("nunique", axis)

    def idxmax(self, axis=0, skipna=True):
        return self._reduce("idxmax", axis)

    def idxmin(self, axis=0, skipna=True):
        return self._reduce("idxmin", axis)

    def abs(self):
        return DataFrame._make(self._columns, [np.abs(c) for c in self._cols], self._index)

    def round(self, d=0):
        return DataFrame._make(self._columns, [np.round(c, d) for c in self._cols], self._index)

    def clip(self, lower=None, upper=None):
        return DataFrame._make(self._columns, [np.clip(c, lower, upper) for c in self._cols], self._index)

    def shift(self, periods=1):
        return DataFrame._make(self._columns, [self._ser(j).shift(periods)._v for j in range(len(self._cols))], self._index)

    def diff(self, periods=1):
        return DataFrame._make(self._columns, [self._ser(j).diff(periods)._v for j in range(len(self._cols))], self._index)

    def dot(self, o):
        r = self.values.dot(o.values if isinstance(o, (DataFrame, Series)) else o)
        if r.ndim == 1:
            return Series(r, index=self._index)
        return DataFrame(r, index=self._index, columns=o.columns if isinstance(o, DataFrame) else None)

    def isin(self, vals):
        return DataFrame._make(self._columns, [self._ser(j).isin(vals)._v for j in range(len(self._cols))], self._index)

    def replace(self, a, b=None):
        return DataFrame._make(self._columns, [self._ser(j).replace(a, b)._v for j in range(len(self._cols))], self._index)

    def squeeze(self, axis=None):
        if len(self._cols) == 1:
            return self._ser(0)
        gap("DataFrame.squeeze")

    def _bin(self, other, f, cmp):
        if isinstance(other, DataFrame):
            if not (self._columns.equals(other._columns) and self._index.equals(other._index)):
                if cmp:
                    raise ValueError("Can only compare identically-labeled DataFrame objects")
                gap("DataFrame arithmetic with different labels")
            cols = [_elem(a, b, f, cmp) for a, b in zip(self._cols, other._cols)]
        elif isinstance(other, Series):
            if not self._columns.equals(other._ix):
                gap("DataFrame op Series with different labels")
            cols = [_elem(a, other._v[j], f, cmp) for j, a in enumerate(self._cols)]
        elif isinstance(other, np.ndarray) and other.ndim == 2:
            cols = [_elem(a, other[:, j], f, cmp) for j, a in enumerate(self._cols)]
        elif isinstance(other, (np.ndarray, list)):
            cols = [_elem(a, other[j], f, cmp) for j, a in enumerate(self._cols)]
        else:
            cols = [_elem(a, other, f, cmp) for a in self._cols]
        return DataFrame._make(self._columns, cols, self._index)

    def _binm(self, other, f, cmp, axis):
        if isinstance(other, Series) and axis in (0, "index"):
            return DataFrame._make(self._columns, [_elem(a, other._v, f, cmp) for a in self._cols], self._index)
        return self._bin(other, f, cmp)

    def __neg__(self):
        return DataFrame._make(self._columns, [-c for c in self._cols], self._index)

    def __invert__(self):
        return DataFrame._make(self._columns, [~c for c in self._cols], self._index)

    def __matmul__(self, o):
        return self.dot(o)

    def equals(self, o):
        return isinstance(o, DataFrame) and self._columns.equals(o._columns) and self._index.equals(o._index) and \
            all(a.equals(b) for (_, a), (_, b) in zip(self.items(), o.items()))

    def to_dict(self, orient="dict"):
        if orient == "dict":
            return {c: s.to_dict() for c, s in self.items()}
        if orient == "list":
            return {c: list(s) for c, s in self.items()}
        if orient == "records":
            cs = list(self._columns)
            return [dict(zip(cs, r)) for r in zip(*[list(s) for _, s in self.items()])]
        if orient == "series":
            return dict(self.items())
        if orient == "index":
            return {i: r.to_dict() for i, r in self.iterrows()}
        gap("to_dict(%r)" % orient)

    def __repr__(self):
        return "DataFrame(%r, columns=%r, index=%r)" % ([list(s) for _, s in self.items()], list(self._columns), list(self._index))


_binops(DataFrame)


class _Loc:
    def __init__(self, f):
        self.f = f

    def _split(self, k):
        f = self.f
        if isinstance(k, tuple) and not isinstance(f._index, MultiIndex):
            if len(k) == 2:
                return k
            if len(k) == 1:
                return k[0], slice(None)
            raise IndexError("Too many indexers")
        return k, slice(None)

    def __getitem__(self, k):
        f = self.f
        r, c = self._split(k)
        rp, r1 = _rows(f._index, r)
        cp, c1 = _rows(f._columns, c)
        if r1 and c1 and len(rp) == 1 and len(cp) == 1:
            return f._cols[cp[0]][rp[0]]
        if r1 and len(rp) == 1:
            s = f._row(rp[0])
            return s if len(cp) == len(f._cols) and cp == list(range(len(cp))) else s._take(cp)
        if c1 and len(cp) == 1:
            return f._ser(cp[0])._take(rp) if rp != list(range(len(f))) else f._ser(cp[0])
        g = f if cp == list(range(len(f._cols))) else f._colsel(cp)
        return g._rowsel(rp)

    def __setitem__(self, k, v):
        f = self.f
        r, c = self._split(k)
        if not isinstance(c, (slice, list, Index, np.ndarray, Series)) and not f._columns._locate(c):
            f[c] = np.nan
        if not isinstance(r, (slice, list, Index, np.ndarray, Series)) and not f._index._locate(r):
            f.__dict__.update(f.append_row(r).__dict__)
        rp, _ = _rows(f._index, r)
        cp, _ = _rows(f._columns, c)
        _assign(f, rp, cp, v)


def _assign(f, rp, cp, v):
    cols = list(f._cols)
    blk = f._block
    for n, j in enumerate(cp):
        if isinstance(v, DataFrame):
            x = v._cols[n]
        elif isinstance(v, np.ndarray) and v.ndim == 2:
            x = v[:, n]
        elif isinstance(v, (list, np.ndarray, Series)) and np.ndim(v) == 1:
            a = np.asarray(v._v if isinstance(v, Series) else v)
            x = a if len(cp) == 1 or len(a) == len(rp) and len(a) != len(cp) else a[n]
        else:
            x = v
        col = cols[j]
        need = _arr(list(x)) if isinstance(x, np.ndarray) and x.ndim else _arr([x])
        if col.dtype == object or need.dtype == col.dtype or (col.dtype.kind == "f" and need.dtype.kind in "iuf"):
            col[rp] = x
        elif col.dtype.kind in "iu" and need.dtype.kind in "iu":
            col[rp] = x
        elif col.dtype.kind in "iu" and need.dtype.kind == "f":
            col = col.astype(float)
            col[rp] = x
            cols[j], blk = col, None
        else:
            col = col.astype(object)
            col[rp] = x
            cols[j], blk = col, None
    f.__dict__.update(_cols=cols, _block=blk)


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        if isinstance(r, (int, np.integer)) and not -len(f) <= r < len(f):
            raise IndexError("single positional indexer is out-of-bounds")
        if isinstance(r, (int, np.integer)) and isinstance(c, (int, np.integer)):
            return f._cols[c][r]
        if isinstance(c, (int, np.integer)):
            s = f._ser(range(len(f._cols))[c])
            return s if r == slice(None) else s._take(np.arange(len(f))[r])
        cp = list(np.arange(len(f._cols))[c])
        g = f if cp == list(range(len(f._cols))) else f._colsel(cp)
        if isinstance(r, (int, np.integer)):
            return g._row(range(len(f))[r])
        if isinstance(r, slice) and r.step in (None, 1):
            return g._rowsel(r)
        return g._rowsel(np.arange(len(f))[r])

    def __setitem__(self, k, v):
        f = self.f
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        _assign(f, list(np.atleast_1d(np.arange(len(f))[r])), list(np.atleast_1d(np.arange(len(f._cols))[c])), v)


class _At:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        r, c = k
        return self.f._cols[self.f._pos(c)[0]][_need(self.f._index, r)[0]]

    def __setitem__(self, k, v):
        self.f.loc[k[0], k[1]] = v


# --------------------------------------------------------------------------- module functions
def isnull(x):
    if isinstance(x, (DataFrame, Series)):
        return x.isnull()
    if isinstance(x, Index):
        x = x._v
    if isinstance(x, (list, np.ndarray)):
        if isinstance(x, list):
            x = _obj(x) if not any(isinstance(v, (list, np.ndarray)) for v in x) else np.array(x, dtype=object)
        if x.dtype.kind in "iub":
            return np.zeros(x.shape, dtype=bool)
        if x.dtype.kind in "fc":
            return np.isnan(x)
        return np.array([_isnull_scalar(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
    if isinstance(x, (set, frozenset, dict, tuple)):
        return False
    return _isnull_scalar(x)


isna = isnull


def notnull(x):
    r = isnull(x)
    return (not r) if isinstance(r, bool) else ~r


notna = notnull


def unique(v):
    v = v._v if isinstance(v, (Series, Index)) else _arr(v)
    out, seen, nan = [], set(), False
    for x in v:
        if _isnull_scalar(x):
            if nan:
                continue
            nan = True
        elif x in seen:
            continue
        else:
            seen.add(x)
        out.append(x)
    return np.array(out, dtype=v.dtype) if v.dtype != object else _obj(out)


def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, sort=False):
    objs = list(objs.values()) if isinstance(objs, dict) else list(objs)
    if keys is not None or join != "outer":
        gap("concat(keys/join)")
    if not objs:
        raise ValueError("No objects to concatenate")
    if all(isinstance(o, Series) for o in objs) and axis in (0, "index"):
        ix = None if ignore_index else _as_index([k for o in objs for k in o.index])
        return Series(_arr([x for o in objs for x in o]), index=ix)
    frames = [o.to_frame() if isinstance(o, Series) else o for o in objs]
    if axis in (1, "columns"):
        base = frames[0].index
        if any(not f.index.equals(base) for f in frames[1:]):
            if any(len(set(f.index)) != len(f.index) for f in frames):
                gap("concat(axis=1) with repeated index labels")
            every = list(base)
            for f in frames[1:]:
                have = set(every)
                every += [k for k in f.index if k not in have]
            try:
                every = sorted(every)
            except TypeError:
                pass
            frames, base = [f.reindex(every) for f in frames], _as_index(every)
        cols = [c.copy() for f in frames for c in f._cols]
        labels = RangeIndex(len(cols)) if ignore_index else _as_index([c for f in frames for c in f.columns])
        return DataFrame._make(labels, cols, base)
    base = frames[0].columns
    order = list(base)
    if any(len(set(f.columns)) != len(f.columns) for f in frames):
        gap("concat(axis=0) with repeated columns")
    for f in frames[1:]:
        order += [c for c in f.columns if c not in order]
    if order != list(base):
        base = _as_index(order)
    cols = []
    for c in order:
        # a column that one of the frames does not have is filled with NaN
        parts = [f[c]._v if c in f.columns else np.full(len(f), np.nan) for f in frames]
        if any(len(p) and p.dtype == bool for p in parts) and any(c not in f.columns for f in frames):
            parts = [p.astype(object) for p in parts]
        dt = _common(parts)
        cols.append(np.concatenate([p.astype(dt) for p in parts]))
    ix = RangeIndex(sum(len(f) for f in frames)) if ignore_index else _as_index([k for f in frames for k in f.index])
    return DataFrame._make(base, cols, ix)


def get_dummies(data, prefix=None, columns=None, dtype=np.uint8, **kw):
    if isinstance(data, DataFrame) or prefix is not None or kw:
        gap("get_dummies of a DataFrame or with options")
    s = data if isinstance(data, Series) else Series(data)
    states = sorted(x for x in unique(s._v) if not _isnull_scalar(x))
    ix = Index(list(_arr(states))) if states else Index([])
    if s.dtype == bool or s.dtype.kind in "iuf":
        ix = Index(np.array(states, dtype=s.dtype))
    return DataFrame._make(ix, [np.array([_same(x, st) for x in s], dtype=dtype) for st in states], s.index)


def to_numeric(x, errors="raise"):
    if isinstance(x, Series):
        return Series(_arr([float(v) if not isinstance(v, (int, np.integer)) else v for v in x]), index=x.index, name=x.name)
    gap("to_numeric")
