"""Shims of numpy, numexpr, pandas, scipy and numba for the instrumented copy.

A call without symbolic arguments goes to the real library (creation functions
excepted: they give SymArrays so that symbolic values can be stored).
"""
import builtins
import math as _math
import inspect
import sys
import types

import numpy as np
import pandas as pd

from . import arr, trans
from .arr import B1, F8, I8, SymArray, asarray, elementwise
from .core import *  # noqa
from .core import z3, cx
from .frame import Columns, SymFrame, SymSeries


def is_sym(x):
    if isinstance(x, (Sym, SymArray, SymFrame)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if isinstance(x, dict):
        return any(is_sym(y) for y in x.values())
    return False


def try_concrete(x):
    """real numpy value of a fully concrete symbolic object, else raises Unsupported"""
    if isinstance(x, SymArray):
        if not x.concrete_shape():
            raise Unsupported("concrete value of a symbolic array")
        f = x.snap()
        out = np.empty(x._shape, dtype=x.dtype)
        for J in np.ndindex(*x._shape):
            out[J] = _cs(f(J))
        return out
    if isinstance(x, Sym):
        return _cs(x)
    if isinstance(x, list):
        return [try_concrete(y) for y in x]
    if isinstance(x, tuple):
        return tuple(try_concrete(y) for y in x)
    if isinstance(x, dict):
        return {k: try_concrete(v) for k, v in x.items()}
    if isinstance(x, SymFrame):
        return pd.DataFrame({k: try_concrete(v) for k, v in x.cols.items()})
    return x


def _cs(v):
    v0 = v
    if not isinstance(v, Sym):
        return v
    if isinstance(v, SReal):
        if bconst(v.nan) is True:
            return float("nan")
        if bconst(v.pinf) is True:
            return float("inf")
        if bconst(v.ninf) is True:
            return float("-inf")
        if not v.plain:
            raise Unsupported("symbolic value where a concrete one is needed")
        n = num_of(z3.simplify(v.v))
        if n is None:
            raise Unsupported("symbolic value where a concrete one is needed")
        return float(n)
    v = simp(v)
    if isinstance(v, Sym):
        raise Unsupported("symbolic value where a concrete one is needed: %s" % v0)
    return v


IMPL = {}


HARMLESS = {"order", "casting", "subok", "copy", "kind"}


def known_kw(name, g, k):
    """keywords that the shim does not look at must not matter"""
    if not k:
        return
    if g not in _PAR:
        try:
            _PAR[g] = {q.name for q in inspect.signature(g).parameters.values() if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY)}
        except (TypeError, ValueError):
            _PAR[g] = set()
    for q, v in k.items():
        if q in _PAR[g] or q in HARMLESS or v is None or v is np._NoValue:
            continue
        if q == "keepdims" and (v is False or name == "sum"):
            continue
        if q == "dtype" and v in (float, np.float64, "float64"):
            continue
        if q == "ddof" and v == 0:
            continue
        raise Unsupported("numpy.%s: keyword %s" % (name, q))


_PAR = {}


def impl(*names):
    def d(f):
        for n in names:
            IMPL[n] = f
        return f

    return d


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out._write(lambda J: True, arr.bcast_to(asarray(r), out._shape))
    return out


def unary(name, fn, dtype=None):
    def f(x, out=None, where=True, dtype_=None, **k):
        if where is not True:
            raise Unsupported("where=")
        return _out(elementwise(fn, x, dtype=dtype), out)

    IMPL[name] = f


for _n in ("exp", "log", "sqrt", "sinh", "arcsinh", "cosh", "arccosh", "tanh", "arctanh", "expm1", "log1p", "floor", "ceil", "rint"):
    unary(_n, getattr(trans, _n), F8)


def _round(x, decimals=0, out=None):
    if decimals != 0:
        raise Unsupported("rounding to decimals")
    a = x if isinstance(x, (SymArray, Sym)) else arr.asarray(x)
    k = a.dtype.kind if isinstance(a, SymArray) else ("i" if isinstance(a, SInt) else "f")
    return a if k in "iu" else _out(elementwise(trans.rint, x, dtype=F8), out)


IMPL["round"] = IMPL["around"] = IMPL["round_"] = _round
unary("abs", sabs)
unary("absolute", sabs)
unary("fabs", lambda x: sabs(as_real(x)), F8)
unary("negative", lambda x: -lift(x))
unary("square", lambda x: arith("*", x, x))
unary("sign", trans.sign)
unary("isnan", isnan, B1)
unary("isfinite", isfinite, B1)
unary("isinf", isinf, B1)
unary("isposinf", lambda x: SBool(lift(x).pinf if isinstance(lift(x), SReal) else False), B1)
unary("isneginf", lambda x: SBool(lift(x).ninf if isinstance(lift(x), SReal) else False), B1)
unary("logical_not", lambda x: ~truth(x), B1)
unary("invert", lambda x: ~lift(x))
unary("log10", lambda x: arith("/", trans.log(x), trans.log(lift(10.0))), F8)
unary("log2", lambda x: arith("/", trans.log(x), trans.log(lift(2.0))), F8)
unary("reciprocal", lambda x: arith("/", 1.0, x), F8)


def binary(name, fn, dtype=None):
    def f(a, b, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("where=")
        return _out(elementwise(fn, a, b, dtype=dtype), out)

    IMPL[name] = f


for _n, _o in [("add", "+"), ("subtract", "-"), ("multiply", "*"), ("power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%")]:
    binary(_n, lambda a, b, o=_o: arith(o, a, b))
binary("true_divide", lambda a, b: arith("/", a, b), F8)
binary("divide", lambda a, b: arith("/", a, b), F8)
for _n, _o in [("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")]:
    binary(_n, lambda a, b, o=_o: cmp(o, a, b), B1)
binary("maximum", smax)
binary("minimum", smin)
binary("fmax", lambda a, b: ite(isnan(a), b, ite(isnan(b), a, smax(a, b))))
binary("fmin", lambda a, b: ite(isnan(a), b, ite(isnan(b), a, smin(a, b))))
binary("logical_and", lambda a, b: truth(a) & truth(b), B1)
binary("logical_or", lambda a, b: truth(a) | truth(b), B1)
binary("bitwise_and", lambda a, b: lift(a) & lift(b))
binary("bitwise_or", lambda a, b: lift(a) | lift(b))


@impl("sum", "nansum_")
def _sum(a, axis=None, **k):
    if isinstance(a, Sym):
        return a
    return asarray(a).sum(axis=axis, keepdims=k.get("keepdims", False))


@impl("nansum")
def _nansum(a, axis=None, **k):
    return arr.where(IMPL["isnan"](a), 0.0, a).sum(axis=axis)


@impl("mean")
def _mean(a, axis=None, **k):
    return a if isinstance(a, Sym) else asarray(a).mean(axis=axis)


@impl("average")
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return asarray(a).mean(axis=axis)
    if axis not in (None, 0):
        raise Unsupported("average axis")
    return (asarray(a) * asarray(weights)).sum() / asarray(weights).sum()


IMPL["std"] = lambda a, **k: asarray(a).std()
IMPL["var"] = lambda a, **k: asarray(a).var()
IMPL["any"] = lambda a, axis=None, **k: truth(a) if isinstance(a, Sym) else asarray(a).any(axis=axis)
IMPL["all"] = lambda a, axis=None, **k: truth(a) if isinstance(a, Sym) else asarray(a).all(axis=axis)
IMPL["max"] = IMPL["amax"] = lambda a, axis=None, **k: a if isinstance(a, Sym) else asarray(a).max(axis=axis)
IMPL["min"] = IMPL["amin"] = lambda a, axis=None, **k: a if isinstance(a, Sym) else asarray(a).min(axis=axis)
IMPL["argmax"] = lambda a, axis=None, **k: asarray(a).argmax(axis)
IMPL["argmin"] = lambda a, axis=None, **k: asarray(a).argmin(axis)
IMPL["nanmax"] = lambda a, **k: _nanext(a, "max")
IMPL["nanmin"] = lambda a, **k: _nanext(a, "min")


def _nanext(a, which):
    a = asarray(a)
    m = IMPL["isnan"](a)
    r = a[~m]
    return r.max() if which == "max" else r.min()


@impl("where")
def _where(c, *ab):
    return arr.where(c, *ab)


IMPL["isscalar"] = lambda a: isinstance(a, Sym)
IMPL["nonzero"] = lambda a: asarray(a).nonzero()
IMPL["clip"] = lambda a, lo=None, hi=None, out=None, a_min=None, a_max=None, **k: arr.clip(
    asarray(a) if not isinstance(a, Sym) else a, lo if lo is not None else a_min, hi if hi is not None else a_max, out
)
IMPL["dot"] = IMPL["matmul"] = IMPL["inner"] = arr.dot
IMPL["bincount"] = arr.bincount
IMPL["cumsum"] = lambda a, axis=None: asarray(a).cumsum(axis)
IMPL["nancumsum"] = lambda a, axis=None: arr.where(IMPL["isnan"](asarray(a)), 0.0, a).cumsum(axis)
IMPL["unique"] = arr.unique
IMPL["sort"] = lambda a, axis=-1, **k: arr.sort(arr.one_dim(asarray(a), axis))
IMPL["argsort"] = lambda a, axis=-1, **k: asarray(a).argsort(axis)
IMPL["repeat"] = arr.repeat
IMPL["concatenate"] = lambda xs, axis=0, **k: arr.concatenate(xs, axis)
IMPL["hstack"] = lambda xs: arr.concatenate(xs, 0 if asarray(xs[0]).ndim == 1 else 1)
IMPL["vstack"] = lambda xs: arr.concatenate([x.reshape(1, -1) if x.ndim == 1 else x for x in map(asarray, xs)], 0)
IMPL["append"] = lambda a, b, axis=None: arr.concatenate([_atl1(a), _atl1(b)], 0)
IMPL["stack"] = lambda xs, axis=0: arr.stack_arrays([asarray(x) for x in xs], axis)
IMPL["column_stack"] = arr.column_stack
IMPL["diff"] = lambda a, n=1, **k: arr.diff(arr.one_dim(asarray(a))) if n == 1 else _no("diff")
IMPL["searchsorted"] = lambda a, v, side="left", **k: arr.searchsorted(a, v, side)
IMPL["outer"] = lambda a, b: asarray(a).reshape(-1, 1) * asarray(b).reshape(1, -1)
IMPL["squeeze"] = lambda a, axis=None: a if isinstance(a, Sym) else asarray(a).squeeze(axis)
IMPL["ravel"] = lambda a, **k: asarray(a).reshape(-1)
IMPL["reshape"] = lambda a, s, **k: asarray(a).reshape(s)
IMPL["transpose"] = lambda a, axes=None: asarray(a).transpose(*(axes or ()))
IMPL["copy"] = lambda a, **k: asarray(a).copy()
IMPL["shape"] = lambda a: asarray(a).shape
IMPL["ndim"] = lambda a: asarray(a).ndim
IMPL["size"] = lambda a: asarray(a).size
IMPL["count_nonzero"] = lambda a, **k: (asarray(a) != 0).sum()
IMPL["prod"] = IMPL["product"] = lambda a, axis=None, **k: asarray(a).prod(axis)
IMPL["isclose"] = lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False: elementwise(lambda x, y: _isclose(x, y, rtol, atol), a, b, dtype=B1)
IMPL["allclose"] = lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False: _aall(elementwise(lambda x, y: _isclose(x, y, rtol, atol), a, b, dtype=B1))
IMPL["array_equal"] = lambda a, b, **k: _aall(elementwise(lambda x, y: cmp("==", x, y), a, b, dtype=B1))
IMPL["may_share_memory"] = lambda a, b, **k: a.store is b.store
IMPL["in1d"] = IMPL["isin"] = lambda a, b, **k: elementwise(
    lambda x: SBool(bor(*[zb(cmp("==", x, y).e) for y in (b.tolist() if hasattr(b, "tolist") else list(b))])), a, dtype=B1
)
IMPL["nan_to_num"] = lambda a, copy=True, nan=0.0, posinf=None, neginf=None: _nan_to_num(a, copy, nan, posinf, neginf)
IMPL["expand_dims"] = lambda a, axis: asarray(a)[(slice(None),) * axis + (None,)]
IMPL["broadcast_to"] = lambda a, s: SymArray(s, arr.bcast_to(asarray(a), tuple(arr.ix(d) for d in s)), asarray(a).dtype)
IMPL["tile"] = lambda a, k: _tile(a, k)
IMPL["einsum"] = lambda *a, **k: _einsum(*a)
IMPL["digitize"] = lambda x, bins, right=False: _digitize(x, bins, right)
IMPL["convolve"] = lambda a, v, mode="full": _convolve(a, v, mode)
IMPL["linspace"] = lambda a, b, num=50, **k: _linspace(a, b, num)
IMPL["logspace"] = lambda a, b, num=50: elementwise(trans.exp, _linspace(a, b, num) * _math.log(10.0))
IMPL["average_"] = None
IMPL["interp"] = None


def _no(what):
    raise Unsupported(what)


def _nan_to_num(a, copy, nan, posinf, neginf):
    if copy is not True:
        raise Unsupported("nan_to_num in place")
    big = float(np.finfo(float).max)
    one = lambda x: ite(isnan(x), nan, ite(isinf(x), ite(cmp(">", x, 0.0), big if posinf is None else posinf, -big if neginf is None else neginf), x))
    return elementwise(one, a)


def _linspace(a, b, num):
    num = simp(num)
    if isinstance(num, int):
        return arr.stack_scalars([lift(a) + (lift(b) - lift(a)) * lift(k) / lift(max(num - 1, 1)) for k in range(num)])
    n1 = smax(arith("-", num, 1), 1)
    return SymArray((num,), lambda idx: as_real(arith("+", a, arith("/", arith("*", arith("-", b, a), arr.dimval(idx[0])), n1))), F8)


def _convolve(a, v, mode):
    a, v = asarray(a), asarray(v)
    if mode != "same" or not isinstance(v._shape[0], int):
        raise Unsupported("convolve")
    k = v._shape[0]
    n = a._shape[0]
    if not cx().branch(zb(arr.ile(k, n))):
        raise Unsupported("convolve with short input")
    fa, fv = a.snap(), v.snap()
    off = (k - 1) // 2

    def g(idx):
        tot = None
        for j in range(k):
            p = arr.iadd(idx[0], off - j)
            inr = arr.rng(p, n)
            if inr is False:
                continue
            x = ite(inr, as_real(fa((p,))), 0.0) if inr is not True else fa((p,))
            x = arith("*", x, fv((j,)))
            tot = x if tot is None else arith("+", tot, x)
        return as_real(tot)

    return SymArray((n,), g, F8)


def _digitize(x, bins, right):
    bins = asarray(bins)
    if right:
        return arr.searchsorted(bins, x, "left")
    return arr.searchsorted(bins, x, "right")


def _einsum(spec, *ops):
    spec = spec.replace(" ", "")
    lhs, rhs = spec.split("->")
    ins = lhs.split(",")
    ops = [asarray(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o._shape):
            dims.setdefault(ch, d)
    fs = [o.snap() for o in ops]
    sumv = [ch for ch in dims if ch not in rhs]
    from . import sums

    def g(idx):
        env = dict(zip(rhs, idx))

        def rec(vs, env):
            if not vs:
                r = None
                for s, f in zip(ins, fs):
                    v = f(tuple(env[ch] for ch in s))
                    r = v if r is None else arith("*", r, v)
                return r
            return sums.sum_over(dims[vs[0]], lambda i: rec(vs[1:], dict(env, **{vs[0]: i})))

        return as_real(rec(sumv, env))

    if not rhs:
        return g(())
    return SymArray([dims[ch] for ch in rhs], g, F8)


def _tile(a, k):
    a = asarray(a)
    k = arr.ix(k)
    if a.ndim > 1:
        raise Unsupported("tile")
    if a.ndim == 0 or a.is_one():
        return arr.full((arr.dimval(k),), a.as_scalar(), a.dtype)
    n = a._shape[0]
    f = a.snap()

    def g(idx):
        i = idx[0]
        return f((i % n if isinstance(i, int) and isinstance(n, int) else arr.ix(z3.simplify(arr.zi(i) % arr.zi(n))),))

    return SymArray((arr.imul(n, k),), g, a.dtype)


def _aall(x):
    return truth(x) if isinstance(x, Sym) else x.all()


def _atl1(a):
    a = asarray(a)
    return a.reshape(-1)


def _isclose(x, y, rtol, atol):
    x, y = as_real(x), as_real(y)
    d = cmp("<=", sabs(x - y), lift(atol) + lift(rtol) * sabs(y))
    fin = SBool(band(x.finite, y.finite))
    return ite(fin, d, cmp("==", x, y))


# creation functions always give SymArrays
def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(arr.dimval(arr.ix(d)) for d in s)
    if isinstance(s, (float, SReal)):
        raise arr.VTypeError("'float' object cannot be interpreted as an integer")
    return (s,)


CREATE = {}
CREATE["zeros"] = lambda shape, dtype=float, order="C": arr.full(_shape(shape), 0, dtype)
CREATE["ones"] = lambda shape, dtype=float, order="C": arr.full(_shape(shape), 1, dtype)


def _empty(shape, dtype=float, order="C"):
    c = cx()
    s = _shape(shape)
    dt = np.dtype(dtype)
    F = c.func("uninit", *(["I"] * len(s)), {"f": "R", "b": "B"}.get(dt.kind, "I"))
    if not s:
        raise Unsupported("0-d empty")

    def f(idx):
        return lift(F(*[arr.zi(i) for i in idx]))

    return SymArray(s, f, dt)


CREATE["empty"] = _empty
CREATE["full"] = lambda shape, v, dtype=None, order="C": arr.full(_shape(shape), v, dtype)


def _like(v):
    def f(a, dtype=None, **k):
        a = asarray(a)
        return arr.full(a.shape, v, dtype or a.dtype)

    return f


CREATE["zeros_like"] = _like(0)
CREATE["ones_like"] = _like(1)
CREATE["full_like"] = lambda a, v, dtype=None, **k: arr.full(asarray(a).shape, v, dtype or asarray(a).dtype)
CREATE["empty_like"] = lambda a, dtype=None, **k: _empty(asarray(a).shape, dtype or asarray(a).dtype)
CREATE["arange"] = lambda *a, **k: arr.arange(*a, **k)
CREATE["eye"] = lambda n, **k: arr.from_np(np.eye(int(n)))


def _asarray(x, dtype=None, copy=False, **k):
    if isinstance(x, (str, bytes)) or x is None or isinstance(x, type):
        return np.asarray(x, dtype=dtype)
    if not is_sym(x):
        a = np.array(x, dtype=dtype, **({"copy": True} if copy else {}))
        if a.dtype.kind in "OUS" or a.size > 4096:
            return a
        return arr.from_np(a)
    r = asarray(x, dtype)
    k.pop("order", None)
    nd = k.pop("ndmin", 0)
    while r.ndim < nd:
        r = r[None]
    return r


CREATE["asarray"] = lambda x, dtype=None, **k: _asarray(x, dtype, **k)
CREATE["asanyarray"] = CREATE["asarray"]
CREATE["ascontiguousarray"] = lambda x, dtype=None: _asarray(x, dtype)
CREATE["array"] = lambda x, dtype=None, copy=True, **k: (lambda r: r.copy() if copy and isinstance(r, SymArray) else r)(_asarray(x, dtype, copy=copy, **k))
CREATE["asfortranarray"] = CREATE["ascontiguousarray"]
CREATE["atleast_1d"] = lambda x: (lambda a: a.reshape(-1) if a.ndim == 0 else a)(_asarray(x))
CREATE["atleast_2d"] = lambda x: (lambda a: a.reshape(1, -1) if a.ndim < 2 else a)(_asarray(x))


class _CR:
    def __init__(self, mode):
        self.mode = mode

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if not any(is_sym(k) for k in key):
            return getattr(np, self.mode)[key]
        if self.mode == "c_":
            xs = []
            for k in key:
                a = asarray(k)
                if a.ndim == 0:
                    a = a.reshape(1, 1)
                elif a.ndim == 1:
                    a = a.reshape(-1, 1)
                xs.append(a)
            return arr.concatenate(xs, 1)
        return arr.concatenate([_atl1(k) if asarray(k).ndim == 0 else asarray(k) for k in key], 0)


class _InstMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, cls._real)
        except TypeError:
            return False

    def __getattr__(cls, k):
        return getattr(cls._real, k)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)


class NDArray(metaclass=_InstMeta):
    _real = np.ndarray

    @classmethod
    def _check(cls, x):
        return isinstance(x, np.ndarray) or (isinstance(x, SymArray) and x._sym_kind == "array")

    @classmethod
    def _make(cls, *a, **k):
        return np.ndarray(*a, **k)


class DataFrame(metaclass=_InstMeta):
    _real = pd.DataFrame

    @classmethod
    def _check(cls, x):
        return isinstance(x, (pd.DataFrame, SymFrame))

    @classmethod
    def _make(cls, data=None, columns=None, index=None, **k):
        if isinstance(data, dict) and is_sym(data):
            n = None
            for v in data.values():
                if isinstance(v, SymArray):
                    n = v._shape[0]
                    break
            f = SymFrame({}, n)
            for kk, v in data.items():
                f[kk] = v
            return f
        if isinstance(data, SymArray):
            if data.ndim == 2 and isinstance(data._shape[1], int):
                names = list(columns) if columns is not None else list(range(data._shape[1]))
                return SymFrame({nm: data[:, j].copy() for j, nm in enumerate(names)}, data._shape[0])
            raise Unsupported("DataFrame of array")
        if isinstance(data, SymFrame):
            return data.copy()
        return pd.DataFrame(data, columns=columns, index=index, **k)


class Series(metaclass=_InstMeta):
    _real = pd.Series

    @classmethod
    def _check(cls, x):
        return isinstance(x, (pd.Series, SymSeries))

    @classmethod
    def _make(cls, data=None, *a, **k):
        if isinstance(data, SymArray):
            return SymSeries.of(data.copy())
        return pd.Series(data, *a, **k)


def _scalar_type(real, kind):
    class T(metaclass=_InstMeta):
        _real = real

        @classmethod
        def _check(cls, x):
            return isinstance(x, real)

        @classmethod
        def _make(cls, x=0, *a):
            if isinstance(x, SymArray):
                return x.astype(real)
            if isinstance(x, Sym):
                return cast(x, real)
            return real(x, *a)

    T.__name__ = getattr(real, "__name__", "T")
    return T


class Mod:
    """attribute proxy of a real module with overrides"""

    def __init__(self, real, over, wrap=True):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrap"] = wrap
        self.__dict__["__name__"] = getattr(real, "__name__", "?")

    def __getattr__(self, k):
        o = self._over
        if k in o:
            return o[k]
        v = getattr(self._real, k)
        if self._wrap and callable(v) and not isinstance(v, type):
            w = guard(v, k)
            o[k] = w
            return w
        if isinstance(v, types.ModuleType):
            w = Mod(v, {})
            o[k] = w
            return w
        return v


def guard(fn, name):
    """real function: fails as Unsupported when given symbolic values"""

    def f(*a, **k):
        if is_sym(a) or is_sym(k):
            a, k = try_concrete(list(a)), try_concrete(k)
        return fn(*a, **k)

    f.__name__ = name
    f._real = fn
    return f


def _npfn(name):
    real = getattr(np, name)

    def f(*a, **k):
        if name in CREATE:
            return CREATE[name](*a, **k)
        if is_sym(a) or is_sym(k):
            g = IMPL.get(name)
            if g is not None:
                try:
                    known_kw(name, g, k)
                    return g(*a, **k)
                except Unsupported:
                    try:
                        ca, ck = try_concrete(list(a)), try_concrete(k)
                    except Unsupported:
                        ca = None
                    if ca is None or k.get("out") is not None:
                        raise
                    return real(*ca, **ck)
            try:
                return real(*try_concrete(list(a)), **try_concrete(k))
            except Unsupported as e:
                raise Unsupported("numpy.%s: %s" % (name, e))
        if name in ("exp", "log", "sqrt", "sinh") and len(a) == 1 and not k and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
            v = trans.conc_float(name, a[0])
            if v is not None:
                return np.float64(v)
        return real(*a, **k)

    f.__name__ = name
    f._real = real
    if isinstance(real, np.ufunc):
        f.reduce = lambda *a, **k: _ufreduce(name, real, *a, **k)
        f.outer = lambda a, b: _ufouter(name, real, a, b)
        f.at = lambda *a: _ufat(name, real, *a)
    return f


def _ufouter(name, real, a, b):
    if not is_sym((a, b)):
        return real.outer(a, b)
    return IMPL[name](asarray(a).reshape(-1, 1), asarray(b).reshape(1, -1))


def _ufat(name, real, a, idx, *b):
    raise Unsupported("ufunc.at")


def _ufreduce(name, real, a, axis=0, **k):
    if not is_sym(a):
        return real.reduce(a, axis=axis, **k)
    m = {"add": "sum", "logical_and": "all", "logical_or": "any", "maximum": "max", "minimum": "min"}
    if name in m:
        if isinstance(a, (list, tuple)):
            r = a[0]
            for x in a[1:]:
                r = IMPL[name](r, x)
            return r
        return getattr(asarray(a), m[name])(axis=axis)
    raise Unsupported("reduce")


class _Errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def make_numpy():
    over = {}
    for n in set(list(IMPL) + list(CREATE)):
        if hasattr(np, n):
            over[n] = _npfn(n)
    over["c_"] = _CR("c_")
    over["r_"] = _CR("r_")
    over["ndarray"] = NDArray
    over["errstate"] = _Errstate
    over["vectorize"] = _vectorize
    for n in ("float64", "int64", "int32", "float32", "int8", "int16", "uint8", "intp", "bool_"):
        over[n] = getattr(np, n)
    over["random"] = np.random
    over["testing"] = np.testing
    over["seterr"] = lambda **k: None
    return Mod(np, over)


def _vectorize(f, *a, **k):
    real = np.vectorize(f, *a, **k)

    def g(*args):
        if is_sym(args):
            return elementwise(f, *args)
        return real(*args)

    return g


# ---------------------------------------------------------------- numexpr
NE = {}
for _n in ("exp", "log", "sqrt", "sinh", "arcsinh", "cosh", "tanh", "abs", "where", "expm1", "log1p", "floor", "ceil"):
    NE[_n] = (lambda n: lambda *a: NPS().__getattr__(n)(*a))(_n)
NE["sum"] = lambda a, axis=None: NPS().sum(a, axis=axis)

_NP = []


def NPS():
    if not _NP:
        _NP.append(make_numpy())
    return _NP[0]


def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, **k):
    frame = sys._getframe(1)
    ns = {}
    code = compile(ex.strip(), "<numexpr>", "eval")
    for nm in code.co_names:
        if local_dict is not None and nm in local_dict:
            ns[nm] = local_dict[nm]
            continue
        if nm in NE and nm not in frame.f_locals:
            continue
        fr = frame
        while fr is not None:
            if nm in fr.f_locals:
                ns[nm] = fr.f_locals[nm]
                break
            if nm in fr.f_globals and not nm.startswith("__"):
                ns[nm] = fr.f_globals[nm]
                break
            fr = fr.f_back
        else:
            e = KeyError(nm)
            e._vc = True
            raise e
    ns = {k2: (v.values if getattr(v, "_sym_kind", None) == "series" else v) for k2, v in ns.items()}
    r = eval(code, {"__builtins__": {}, **NE}, ns)
    if out is not None:
        return _out(r, out)
    return r.copy() if isinstance(r, SymArray) else r


class NumbaType:
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], NumbaType) and not k:
        return a[0]
    return lambda f: f


def make_numba():
    m = types.SimpleNamespace()
    m.jit = m.njit = m.vectorize = m.guvectorize = _jit
    from .loops import srange

    m.prange = srange
    for n in ("float64", "int64", "int32", "float32", "boolean", "int8", "uint8", "intp"):
        setattr(m, n, NumbaType())
    m.types = m
    m.errors = types.SimpleNamespace(NumbaError=Exception)
    return m


# ---------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, SymArray):
        if not x._shape:
            raise arr.VTypeError("len() of unsized object")
        return arr.dimval(x._shape[0])
    if isinstance(x, SymFrame):
        return arr.dimval(x.n)
    r = getattr(x, "_sym_len", None)
    if r is not None and not isinstance(x, type):
        return r()
    return builtins.len(x)


def b_float(x=0.0):
    if isinstance(x, SymArray):
        x = x.as_scalar()
    if isinstance(x, Sym):
        return as_real(x)
    return builtins.float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a):
        return b_float(*a)


def b_int(x=0, *a):
    if isinstance(x, SymArray):
        x = x.as_scalar()
    if isinstance(x, SReal):
        if not x.plain:
            if cx().branch(zb(bnot(x.finite))):
                e = ValueError("cannot convert float NaN to integer")
                e._vc = True
                raise e
        return trunc_int(x)
    if isinstance(x, Sym):
        return as_int_scalar(x)
    return builtins.int(x, *a)


def b_bool(x=False):
    if isinstance(x, SymArray):
        x = x.as_scalar()
    if isinstance(x, Sym):
        return truth(x)
    return builtins.bool(x)


# usable as dtype arguments like the built-in types they stand for
b_float.dtype, b_int.dtype, b_bool.dtype = np.dtype(builtins.float), np.dtype(builtins.int), np.dtype(builtins.bool)


def b_abs(x):
    return abs(x)


def b_round(x, nd=None):
    if isinstance(x, Sym):
        if nd:
            return as_real(x).__round__(nd)
        r = trans.rint(x)
        return trunc_int(r)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _minmax(which):
    real = getattr(builtins, which)
    pick = (lambda a, b: ite(cmp(">", b, a), b, a)) if which == "max" else (lambda a, b: ite(cmp("<", b, a), b, a))

    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, SymArray) and not xs.concrete_shape():
            return getattr(xs, which)()
        xs = list(xs)
        if any(isinstance(x, (Sym, SymArray)) for x in xs):
            if k.get("key"):
                raise Unsupported("min/max key")
            xs = [x.as_scalar() if isinstance(x, SymArray) else x for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return real(*a, **k)

    return f


def b_sum(x, start=0):
    if isinstance(x, SymArray):
        return arith("+", x.sum(), start)
    return builtins.sum(x, start)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(k, tuple):
            if b_isinstance(x, k):
                return True
            continue
        if k is float or k is b_float:
            if isinstance(x, (float, SReal)):
                return True
        elif k is int or k is b_int:
            if isinstance(x, (int, SInt)):
                return True
        elif k is bool or k is b_bool:
            if isinstance(x, (bool, SBool)):
                return True
        elif k in (np.floating, np.float64):
            if isinstance(x, (np.floating, SReal)):
                return True
        elif k in (np.integer, np.int64):
            if isinstance(x, (np.integer, SInt)):
                return True
        elif k is np.number:
            if isinstance(x, (np.number, SInt, SReal)):
                return True
        elif builtins.isinstance(x, k):
            return True
    return False


def b_any(x):
    if isinstance(x, SymArray):
        return x.any()
    r = False
    for y in x:
        if y:
            return True
    return r


def b_all(x):
    if isinstance(x, SymArray):
        return x.all()
    for y in x:
        if not y:
            return False
    return True


def b_sorted(x, **k):
    if isinstance(x, SymArray):
        return arr.sort(x)
    return builtins.sorted(x, **k)


def make_math():
    over = {}
    for n in ("exp", "log", "sqrt", "sinh", "cosh", "tanh", "floor", "ceil", "fabs", "isfinite", "isnan", "isinf", "log1p", "expm1"):
        real = getattr(_math, n)

        def f(*a, real=real, n=n):
            if is_sym(a):
                if n in ("floor", "ceil"):
                    r = getattr(trans, n)(a[0])
                    return trunc_int(r)
                return IMPL[n](*a)
            return real(*a)

        over[n] = f
    over["lgamma"] = lambda x: trans_uf("lgamma", x) if is_sym(x) else _math.lgamma(x)
    return Mod(_math, over)


def trans_uf(name, *xs):
    """plain uninterpreted function of real arguments (finite result assumed)"""
    xs = [as_real(x) for x in xs]
    for x in xs:
        if not x.plain and not cx().valid(x.finite):
            raise Unsupported("%s of a non-finite value" % name)
    F = trans.fn(name, *([z3.RealSort()] * (len(xs) + 1)))
    return SReal(F(*[trans.canon(x.v) for x in xs]))
