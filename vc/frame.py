"""Stand-ins for pandas objects with symbolic columns."""
import numpy as np

from . import arr
from .arr import SymArray, dimval
from .core import *  # noqa
from .core import cx


class Columns(list):
    def tolist(self):
        return list(self)

    def get_loc(self, c):
        return self.index(c)

    @property
    def values(self):
        return np.array(list(self), dtype=object)


class SymSeries(SymArray):
    _sym_kind = "series"

    moved = False

    @staticmethod
    def of(a, name=None, moved=False):
        """moved: the labels are no longer 0..n-1"""
        r = SymSeries(a._shape, dtype=a.dtype, store=a.store, view=a.view, comp=a.comp)
        r.name = name
        r.moved = moved
        return r

    def __getitem__(self, k):
        if isinstance(k, SymArray) and k.dtype.kind == "b":
            return SymSeries.of(self.values[k.values if isinstance(k, SymSeries) else k], getattr(self, "name", None), True)
        if self.moved:
            raise Unsupported("labels of a reordered series")
        return SymArray.__getitem__(self, k)

    @property
    def values(self):
        return SymArray(self._shape, dtype=self.dtype, store=self.store, view=self.view, comp=self.comp)

    def copy(self, *a, **k):
        return SymSeries.of(self.values.copy(), getattr(self, "name", None), self.moved)

    @property
    def iloc(self):
        return self.values

    @property
    def index(self):
        if self.moved:
            raise Unsupported("labels of a reordered series")
        return arr.arange(dimval(self._shape[0]))

    def isnull(self):
        return arr.elementwise(lambda x: isnan(x), self.values, dtype=arr.B1)

    isna = isnull

    def fillna(self, v):
        return SymSeries.of(arr.where(self.isnull(), v, self.values))

    def unique(self):
        return arr.unique(self.values)


class SymFrame:
    _sym_kind = "frame"
    __array_ufunc__ = None

    def __init__(self, cols, n=None, moved=False):
        self.moved = moved
        self.cols = dict(cols)
        if n is None:
            n = next(iter(self.cols.values()))._shape[0] if self.cols else 0
        self.n = n

    @property
    def columns(self):
        return Columns(self.cols)

    @columns.setter
    def columns(self, names):
        self.cols = {k: v for k, v in zip(names, self.cols.values())}

    @property
    def shape(self):
        return (dimval(self.n), len(self.cols))

    @property
    def index(self):
        if self.moved:
            raise Unsupported("labels of a reordered frame")
        return arr.arange(dimval(self.n))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return dimval(self.n) * len(self.cols)

    @property
    def empty(self):
        if not self.cols:
            return True
        return bool(cmp("==", dimval(self.n), 0))

    @property
    def values(self):
        return arr.column_stack(list(self.cols.values()))

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def dtypes(self):
        return {k: v.dtype for k, v in self.cols.items()}

    @property
    def iloc(self):
        return _ILoc(self)

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(self.cols)

    def keys(self):
        return self.columns

    def items(self):
        return [(k, SymSeries.of(v, k, self.moved)) for k, v in self.cols.items()]

    def copy(self, deep=True):
        return SymFrame({k: v.copy() for k, v in self.cols.items()}, self.n, self.moved)

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len of a symbolic frame")

    def __getattr__(self, k):
        if k.startswith("__") or k not in self.__dict__.get("cols", {}):
            raise AttributeError(k)
        return self[k]

    def __getitem__(self, k):
        if isinstance(k, list) or isinstance(k, (tuple, np.ndarray, Columns)) and not isinstance(k, str) and k not in self.cols:
            if isinstance(k, tuple):
                e = KeyError(k)
                e._vc = True
                raise e
            return SymFrame({c: self._col(c).copy() for c in k}, self.n, self.moved)
        if isinstance(k, SymArray):
            if k.dtype.kind == "b":
                cols = {c: v[k.values] for c, v in self.cols.items()}
                return SymFrame(cols, moved=True)
            raise Unsupported("frame key")
        c = self._col(k)
        return SymSeries.of(c, k, self.moved)

    def _col(self, k):
        try:
            return self.cols[k]
        except KeyError as e:
            e._vc = True
            raise

    def __setitem__(self, k, v):
        if isinstance(k, SymArray):
            raise Unsupported("frame mask assignment")
        if isinstance(v, SymSeries) and (v.moved or self.moved):
            raise Unsupported("alignment by labels")
        if not is_scalar(v) and np.ndim(v) == 0 and hasattr(v, "dtype"):
            v = v.as_scalar() if isinstance(v, SymArray) else v.item()
        if is_scalar(v):
            v = arr.full((dimval(self.n),), v)
        else:
            v = arr.asarray(v)
            if v.ndim == 2:
                v = v[:, 0]
            if self.cols and not arr._dim_eq(v._shape[0], self.n):
                raise arr.VValueError("Length of values does not match length of index")
            if not self.cols:
                self.n = v._shape[0]
        self.cols[k] = v.copy()

    def drop(self, cols=None, axis=1, columns=None, **k):
        cs = columns if columns is not None else cols
        cs = [cs] if isinstance(cs, str) else cs
        return SymFrame({c: v for c, v in self.cols.items() if c not in cs}, self.n, self.moved)

    @property
    def loc(self):
        return _Loc(self)

    def groupby(self, by, as_index=True, **k):
        arr.plain(k)
        if isinstance(by, (list, tuple)):
            if len(by) != 1:
                raise Unsupported("groupby of several columns")
            by = by[0]
        return _GroupBy(self, by, as_index)

    def sort_values(self, by, **k):
        arr.plain(k)
        order = arr.argsort(self._col(by))
        cols = {}
        for c, v in self.cols.items():
            w = v[order]
            cols[c] = w
            if v.dtype.kind == "f" and v.comp is None and not isinstance(v._shape[0], int):
                # a sum does not depend on the order of its terms
                cx().add(cmp("==", v.sum(), w.sum()).e)
        return SymFrame(cols, self.n, True)

    def astype(self, t, **k):
        return SymFrame({c: v.astype(t) for c, v in self.cols.items()}, self.n, self.moved)


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int):
            name = list(self.f.cols)[k[1]]
            c = self.f.cols[name]
            return SymSeries.of(c, name, self.f.moved) if k[0] == slice(None) else c[k[0]]
        raise Unsupported("iloc")


class _Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, SymArray) and k.dtype.kind == "b":
            return self.f[k]
        raise Unsupported("loc")


class _GroupBy:
    """rows with equal values of one column, in increasing order of the values"""

    def __init__(self, f, by, as_index, cols=None):
        self.f, self.by, self.as_index, self.cols = f, by, as_index, cols

    def __getitem__(self, k):
        return _GroupBy(self.f, self.by, self.as_index, [k] if isinstance(k, str) else list(k))

    def agg(self, how):
        if not isinstance(how, dict):
            how = {c: how for c in self._names()}
        if any(h != "sum" for h in how.values()):
            raise Unsupported("aggregation")
        return self._sums(list(how))

    def sum(self, **k):
        arr.plain(k)
        return self._sums(self._names())

    def _names(self):
        return self.cols if self.cols is not None else [c for c in self.f.cols if c != self.by]

    def _sums(self, names):
        key = self.f._col(self.by)
        u, pos = arr.unique(key, return_inverse=True)
        pos = SymArray(pos._shape, pos.snap(), arr.I8, comp=key.comp)

        def total(v):
            def g(idx):
                return arr.elementwise(lambda p, x: ite(cmp("==", p, dimval(idx[0])), x, 0.0), pos, v, dtype=arr.F8).sum()

            return SymArray(u._shape, g, arr.F8)

        cols = {}
        for c in names:
            v = self.f._col(c)
            if v.dtype.kind != "f":
                raise Unsupported("sums per group of values that are no floats")
            cols[c] = total(v)
        return _Sums(self.by, u, cols, self.as_index)


class _Sums:
    def __init__(self, by, u, cols, as_index):
        self.by, self.u, self.cols, self.as_index = by, u, cols, as_index

    def reset_index(self, **k):
        arr.plain(k)
        if not self.as_index:
            raise Unsupported("index of grouped sums")
        return SymFrame({self.by: self.u, **self.cols}, self.u._shape[0])

    @property
    def index(self):
        return self.u

    def __getitem__(self, k):
        if not self.as_index and k == self.by:
            return SymSeries.of(self.u, k)
        return SymSeries.of(self.cols[k], k, self.as_index)
