"""Arrays of symbolic shape: element functions, views, masks, reductions."""
import numpy as np

from . import sums
from .core import *  # noqa
from .core import z3, cx

class VValueError(ValueError):
    """error the real library raises (not an engine failure)"""

    _vc = True


class VIndexError(IndexError):
    _vc = True


class VTypeError(TypeError):
    _vc = True


F8, I8, B1, OB = np.dtype("float64"), np.dtype("int64"), np.dtype("bool"), np.dtype("O")


# ------------------------------------------------------------ index helpers
def ix(x):
    """index component: python int or z3 Int"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, SInt):
        t = z3.simplify(x.e)
        return t.as_long() if z3.is_int_value(t) else t
    if isinstance(x, SBool):
        return ix(x._i())
    if is_z3(x):
        return x.as_long() if z3.is_int_value(x) else x
    raise Unsupported("index %r" % (x,))


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return ix(z3.simplify(a + b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return ix(z3.simplify(a - b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return ix(z3.simplify(a * b))


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    r = z3.simplify(zi(a) == zi(b))
    k = bconst(r)
    return r if k is None else k


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    r = z3.simplify(zi(a) < zi(b))
    k = bconst(r)
    return r if k is None else k


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    r = z3.simplify(zi(a) <= zi(b))
    k = bconst(r)
    return r if k is None else k


def rng(i, n):
    return band(ile(0, i), ilt(i, n))


def dimval(d):
    return d if isinstance(d, int) else SInt(d)


def sameint(a, b):
    """syntactic or entailed equality"""
    e = ieq(a, b)
    return e if isinstance(e, bool) else cx().valid(e)


# --------------------------------------------------------------- storage
def memoise(f):
    memo = {}

    def g(idx):
        # flags are pruned under the hypotheses in force, so they are part of the key
        hy = cx().hyps
        key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx), tuple(zb(h).get_id() for h in hy)
        r = memo.get(key)
        if r is None:
            r = f(idx)
            memo[key] = (r, idx, list(hy))
            return r
        return r[0]

    return g


class Storage:
    __slots__ = ("f", "nwrites", "name")

    def __init__(self, f, name=None):
        self.f = memoise(f)
        self.nwrites = 0
        self.name = name


class SymArray:
    """n-dimensional array; `axes` maps base axes to (kind, start, step, outpos)"""

    __array_ufunc__ = None
    __array_priority__ = 2000
    _sym_kind = "array"

    def __init__(self, shape, f=None, dtype=F8, store=None, view=None, comp=None, name=None):
        self._shape = tuple(ix(d) for d in shape)
        self.dtype = np.dtype(dtype)
        self.store = store if store is not None else Storage(f, name)
        self.view = view
        self.comp = comp  # compression: (maskrec,) when axis 0 is a mask selection
        self.ro = False

    # -- basics
    @property
    def shape(self):
        return tuple(dimval(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = imul(r, d)
        return dimval(r)

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        class _F(dict):
            c_contiguous = True
            contiguous = True
            writeable = True

            def __getitem__(self, k):
                return True

        return _F()

    @property
    def values(self):
        return self

    @property
    def nbytes(self):
        return self.size

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return None

    def snap(self):
        """element function of the present contents"""
        f, view = self.store.f, self.view
        if view is None:
            return f

        def g(idx):
            return f(tuple(a if k == "fix" else iadd(a, imul(b, idx[o])) for (k, a, b, o) in view))

        return g

    def at(self, *idx):
        idx = tuple(ix(i) for i in idx)
        c = cx()
        for i in idx:
            if not isinstance(i, int):
                c.register(i)
        return self.snap()(idx)

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() of a symbolic array outside an instrumented module")

    def concrete_shape(self):
        return all(isinstance(d, int) for d in self._shape)

    def tolist(self):
        if self.ndim == 1 and self.concrete_shape():
            return [self.at(i) for i in range(self._shape[0])]
        if self.ndim == 0:
            return self.at()
        raise Unsupported("tolist of a symbolic array")

    def __iter__(self):
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over a symbolic array")
        for i in range(d):
            yield self[i]

    def as_scalar(self):
        if all(d == 1 for d in self._shape if isinstance(d, int)) and self.concrete_shape():
            return lift(self.snap()(tuple(0 for _ in self._shape)))
        raise Unsupported("array used as scalar")

    def __bool__(self):
        if self.concrete_shape() and all(d == 1 for d in self._shape):
            return bool(truth(self.as_scalar()))
        d0 = self._shape
        if self.ndim == 1 and not isinstance(d0[0], int):
            if cx().branch(d0[0] == 1):
                return bool(truth(self.snap()((0,))))
        raise VValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.as_scalar())

    def item(self, *a):
        if a:
            return self.at(*a)
        return self.as_scalar()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, *a, **k):
        return SymArray(self._shape, self.snap(), self.dtype, comp=self.comp)

    def __repr__(self):
        return "SymArray(shape=%s, %s)" % (self._shape, self.dtype)

    def __hash__(self):
        return id(self)

    # -- shape manipulation (copies unless noted)
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        if not axes:
            axes = tuple(range(n))[::-1]
        inv = {a: k for k, a in enumerate(axes)}
        shape = tuple(self._shape[a] for a in axes)
        base = self._view()
        view = [(k, a, b, inv[o] if k == "sl" else o) for (k, a, b, o) in base]
        return SymArray(shape, dtype=self.dtype, store=self.store, view=view)

    def _view(self):
        if self.view is None:
            return [("sl", 0, 1, k) for k in range(self.ndim)]
        return self.view

    def ravel(self, *a, **k):
        return self.reshape(-1)

    flatten = ravel

    def squeeze(self, axis=None):
        keep = [k for k, d in enumerate(self._shape) if not (isinstance(d, int) and d == 1 and (axis is None or k == axis))]
        for k in keep:
            d = self._shape[k]
            if not isinstance(d, int) and axis is None and not cx().valid(d != 1):
                # squeezing changes nothing but the rank; fork on it
                if cx().branch(d == 1):
                    keep = [j for j in keep if j != k]
        if len(keep) == self.ndim:
            return self
        f = self.snap()
        nd = self.ndim

        def g(idx):
            full = [0] * nd
            for p, k in enumerate(keep):
                full[k] = idx[p]
            return f(tuple(full))

        base = self._view()
        pos = {k: p for p, k in enumerate(keep)}
        view = []
        for (kd, a, b, o) in base:
            if kd == "sl" and o not in pos:
                view.append(("fix", a, 0, None))
            else:
                view.append((kd, a, b, pos.get(o)))
        return SymArray([self._shape[k] for k in keep], dtype=self.dtype, store=self.store, view=view)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [ix(d) if not (isinstance(d, int) and d == -1) else -1 for d in shape]
        old = self._shape
        if -1 in shape:
            k = shape.index(-1)
            rest = 1
            for j, d in enumerate(shape):
                if j != k:
                    rest = imul(rest, d)
            tot = 1
            for d in old:
                tot = imul(tot, d)
            if isinstance(rest, int) and rest == 1:
                shape[k] = tot
            elif isinstance(rest, int) and isinstance(tot, int):
                shape[k] = tot // rest
            else:
                nz = [d for d in old if not (isinstance(d, int) and d == 1)]
                nr = [d for j, d in enumerate(shape) if j != k and not (isinstance(d, int) and d == 1)]
                for d in nr:
                    for e in nz:
                        if sameint(d, e):
                            nz.remove(e)
                            break
                    else:
                        raise Unsupported("reshape")
                r = 1
                for e in nz:
                    r = imul(r, e)
                shape[k] = r
        nzo = [(k, d) for k, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
        nzn = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        f = self.snap()
        no = len(old)
        if len(nzo) == len(nzn) and all(sameint(a[1], b[1]) for a, b in zip(nzo, nzn)):
            if order == "C" or len(nzo) <= 1:
                m = {a[0]: b[0] for a, b in zip(nzo, nzn)}
                base = self._view()
                view = []
                for (kd, a, b, o) in base:
                    if kd == "sl" and o not in m:
                        view.append(("fix", a, 0, None))
                    else:
                        view.append((kd, a, b, m.get(o)))
                return SymArray(shape, dtype=self.dtype, store=self.store, view=view)
        if order != "C":
            raise Unsupported("reshape order")
        # general C order with div/mod
        def g(idx):
            lin = 0
            for i, d in zip(idx, shape):
                lin = iadd(imul(lin, d), i)
            out = []
            for d in reversed(old):
                if isinstance(lin, int) and isinstance(d, int):
                    out.append(lin % d)
                    lin //= d
                else:
                    out.append(ix(z3.simplify(zi(lin) % zi(d))))
                    lin = ix(z3.simplify(zi(lin) / zi(d)))
            return f(tuple(reversed(out)))

        r = SymArray(shape, g, self.dtype)
        r.ro = True
        return r

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def astype(self, t, copy=True, **k):
        f = self.snap()
        dt = np.dtype(t)
        if dt == self.dtype or (dt.kind == self.dtype.kind and dt.kind in "fb"):
            return self.copy() if copy else self
        if dt.kind == "O":
            return SymArray(self._shape, f, OB, comp=self.comp)
        return SymArray(self._shape, lambda idx: cast(f(idx), dt), dt if dt.kind != "u" else dt, comp=self.comp)

    def view_(self):
        return self

    # -- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p : p + 1] = [slice(None)] * (self.ndim - n_real)
        else:
            nb = sum((k.ndim - 1) for k in key if isinstance(k, SymArray) and k.dtype.kind == "b" and k.ndim > 1)
            key += [slice(None)] * (self.ndim - n_real - nb)
        out = []
        for k in key:
            if isinstance(k, np.ndarray) and k.ndim > 0:
                k = from_np(k)
            elif isinstance(k, list):
                if all(isinstance(z, (int, np.integer, bool, np.bool_)) for z in k):
                    k = from_np(np.asarray(k))
                else:
                    k = stack_scalars(k)
            elif isinstance(k, (np.integer,)):
                k = int(k)
            elif getattr(k, "_sym_kind", None) == "series":
                k = k.values
            elif isinstance(k, SymArray) and k.ndim == 0:
                k = k.as_scalar()
            out.append(k)
        return out

    def _norm_int(self, k, d):
        """bounds-checked non-negative index"""
        c = cx()
        k = ix(k)
        if isinstance(k, int) and isinstance(d, int):
            if not -d <= k < d:
                raise VIndexError("index %d is out of bounds for axis with size %d" % (k, d))
            return k % d if d else k
        if isinstance(k, int):
            if k >= 0:
                if not c.branch(zi(d) > k):
                    raise VIndexError("index out of bounds")
                return k
            if not c.branch(zi(d) >= -k):
                raise VIndexError("index out of bounds")
            return ix(z3.simplify(zi(d) + k))
        if not c.valid(k >= 0):
            if c.branch(k < 0):
                if not c.branch(k >= -zi(d)):
                    raise VIndexError("index out of bounds")
                return ix(z3.simplify(k + zi(d)))
        if not c.branch(k < zi(d)):
            raise VIndexError("index out of bounds")
        return k

    def _slice(self, s, d):
        """(start, step, length)"""
        c = cx()
        step = 1 if s.step is None else ix(s.step)
        if not isinstance(step, int) or step not in (1, -1):
            if isinstance(d, int) and all(x is None or isinstance(ix(x), int) for x in (s.start, s.stop, s.step)):
                a, b, st = slice(*[None if x is None else ix(x) for x in (s.start, s.stop, s.step)]).indices(d)
                return a, st, len(range(a, b, st))
            if isinstance(step, int) and step > 1 and s.stop is None:
                st = 0 if s.start is None else ix(s.start)
                if isinstance(st, int) and st >= 0:
                    return st, step, ix(z3.simplify(z3.If(zi(d) > st, (zi(d) - st + step - 1) / step, z3.IntVal(0))))
            raise Unsupported("slice step")

        def norm(x, default):
            if x is None:
                return default
            x = ix(x)
            if isinstance(x, int) and isinstance(d, int):
                return min(max(x + d if x < 0 else x, 0), d)
            zx, zd = zi(x), zi(d)
            if isinstance(x, int):
                if x >= 0:
                    if x == 0 or c.valid(zd >= x):
                        return x
                    return ix(z3.If(zd >= x, z3.IntVal(x), zd))
                if c.valid(zd + x >= 0):
                    return ix(z3.simplify(zd + x))
                return ix(z3.If(zd + x >= 0, zd + x, z3.IntVal(0)))
            if c.valid(z3.And(zx >= 0, zx <= zd)):
                return x
            y = z3.If(zx < 0, zx + zd, zx)
            return ix(z3.simplify(z3.If(y < 0, z3.IntVal(0), z3.If(y > zd, zd, y))))

        if step == 1:
            a, b = norm(s.start, 0), norm(s.stop, d)
            ln = isub(b, a)
            if isinstance(ln, int):
                ln = max(ln, 0)
            elif not c.valid(ln >= 0):
                ln = ix(z3.If(ln >= 0, ln, z3.IntVal(0)))
            return a, 1, ln
        if s.start is None and s.stop is None:
            return isub(d, 1), -1, d
        raise Unsupported("negative slice")

    def __getitem__(self, key):
        if isinstance(key, str):
            raise VIndexError("only integers, slices ... are valid indices")
        key = self._parse(key)
        if any(isinstance(k, SymArray) for k in key):
            return self._fancy(key)
        # basic indexing: a view
        shape, view_map = [], []  # per own axis: ('fix', i) or ('sl', start, step, outpos)
        ax = 0
        scalar = True
        for k in key:
            if k is None:
                shape.append(1)
                scalar = False
                continue
            d = self._shape[ax]
            if isinstance(k, slice):
                a, st, ln = self._slice(k, d)
                view_map.append(("sl", a, st, len(shape)))
                shape.append(ln)
                scalar = False
            else:
                if isinstance(k, SReal) or isinstance(k, float):
                    raise VIndexError("only integers ... are valid indices")
                view_map.append(("fix", self._norm_int(k, d), 0, None))
            ax += 1
        if scalar:
            return self.at(*[v[1] for v in view_map])
        comb = []
        for (kd, a, b, o) in self._view():
            if kd == "fix":
                comb.append((kd, a, b, o))
            else:
                kd2, a2, b2, o2 = view_map[o]
                if kd2 == "fix":
                    comb.append(("fix", iadd(a, imul(b, a2)), 0, None))
                else:
                    comb.append(("sl", iadd(a, imul(b, a2)), imul(b, b2), o2))
        r = SymArray(shape, dtype=self.dtype, store=self.store, view=comb)
        r.ro = self.ro
        if self.comp is not None and isinstance(key[0], slice) and key[0] == slice(None):
            r.comp = self.comp
        return r

    def _fancy(self, key):
        f = self.snap()
        if len([k for k in key if isinstance(k, SymArray)]) == 1:
            p = [i for i, k in enumerate(key) if isinstance(k, SymArray)][0]
            k = key[p]
            if k.dtype.kind == "b":
                if k.ndim == self.ndim and k.ndim > 1:
                    if self.concrete_shape() and k.concrete_shape():
                        raise Unsupported("2-d mask")
                    raise Unsupported("2-d mask")
                if any(x is None for x in key):
                    raise Unsupported("newaxis with mask")
                d = self._shape[p]
                if not _dim_eq(k._shape[0], d):
                    raise VIndexError("boolean index did not match indexed array")
                rec = mask_rec(k)
                shape = list(self._shape)
                shape[p] = rec.m

                def g(idx):
                    idx = list(idx)
                    idx[p] = rec.sel(idx[p])
                    return f(tuple(idx))

                r = SymArray(shape, g, self.dtype, comp=rec if p == 0 else None)
                rest = [slice(None)] * len(key)
                for i, x in enumerate(key):
                    if i != p:
                        rest[i] = x
                return r if all(isinstance(x, slice) and x == slice(None) for x in rest) else r[tuple(rest)]
            # integer array on axis p, other keys basic
            pre = list(key)
            pre[p] = slice(None)
            a = self if all(isinstance(x, slice) and x == slice(None) for x in pre) else self[tuple(pre)]
            pos = sum(1 for x in key[:p] if x is None or isinstance(x, slice))
            if k.dtype.kind not in "iu":
                raise VIndexError("arrays used as indices must be of integer (or boolean) type")
            fa, d = a.snap(), a._shape[pos]
            fk = k.snap()
            bound_check(k, d)
            kn = k.ndim
            shape = list(a._shape[:pos]) + list(k._shape) + list(a._shape[pos + 1 :])
            nonneg = _all_nonneg(k)

            def g(idx):
                t = ix(lift(fk(tuple(idx[pos : pos + kn]))))
                if not nonneg:
                    t = wrap_neg(t, d)
                if not isinstance(t, int) and not repeated(t):
                    cx().register(t)
                return fa(tuple(idx[:pos]) + (t,) + tuple(idx[pos + kn :]))

            return SymArray(shape, g, self.dtype, comp=k.comp if pos == 0 and kn == 1 else None)
        # several index arrays (all integer): broadcast together, every key an array or int
        ks = []
        for k in key:
            if isinstance(k, slice) or k is None:
                raise Unsupported("mixed fancy index")
            ks.append(k if isinstance(k, SymArray) else full((), k))
        shape = broadcast_shape(*[k._shape for k in ks])
        for k, d in zip(ks, self._shape):
            bound_check(k, d)
        fs = [bcast(k, shape) for k in ks]

        def g(idx):
            t = tuple(wrap_neg(ix(lift(h(idx))), d) for h, d in zip(fs, self._shape))
            for x in t:
                if not isinstance(x, int):
                    cx().register(x)
            return f(t)

        return SymArray(shape, g, self.dtype)

    # -- assignment
    def _write(self, cond, val):
        """pointwise update of self: where cond(idx) the value val(idx)"""
        if self.ro:
            raise Unsupported("write to a reshaped copy")
        old = self.store.f
        view = self.view
        shape = self._shape
        dt = self.dtype
        self.store.nwrites += 1

        def conv(x):
            if dt.kind == "O":
                return x
            if dt.kind == "f":
                return as_real(x) if not isinstance(x, float) else x
            return cast(x, dt)

        if view is None:

            def new(J):
                c = cond(J)
                k = bconst(c)
                if k is False:
                    return old(J)
                if k is True:
                    return conv(val(J))
                return ite(c, conv(val(J)), old(J))

        else:
            nd = len(shape)

            def new(J):
                conds, idx = [], [0] * nd
                for j, (kd, a, b, o) in zip(J, view):
                    if kd == "fix":
                        conds.append(ieq(j, a))
                    else:
                        if b == 1:
                            i = isub(j, a)
                        elif b == -1:
                            i = isub(a, j)
                        else:
                            df = isub(j, a)
                            if isinstance(df, int) and isinstance(b, int):
                                if df % b:
                                    return old(J)
                                i = df // b
                            else:
                                conds.append(z3.simplify(zi(df) % zi(b)) == 0)
                                i = ix(z3.simplify(zi(df) / zi(b)))
                        conds.append(rng(i, shape[o]))
                        idx[o] = i
                inn = band(*conds)
                if bconst(inn) is False:
                    return old(J)
                c = band(inn, cond(tuple(idx)))
                k = bconst(c)
                if k is False:
                    return old(J)
                v = conv(val(tuple(idx)))
                if k is True:
                    return v
                return ite(c, v, old(J))

        self.store.f = memoise(new)

    def __setitem__(self, key, value):
        if getattr(value, "_sym_kind", None) == "series":
            value = value.values
        if isinstance(value, (list, tuple)):
            value = asarray(value)
        if isinstance(value, np.ndarray):
            value = from_np(value) if value.ndim else value.item()
        key = self._parse(key)
        arrs = [i for i, k in enumerate(key) if isinstance(k, SymArray)]
        if not arrs:
            tgt_key = tuple(key)
            ints = all(not isinstance(k, slice) and k is not None for k in key)
            if ints:
                pos = tuple(self._norm_int(k, d) for k, d in zip(key, self._shape))
                if isinstance(value, SymArray):
                    value = value.as_scalar()
                self._write(lambda J: band(*[ieq(j, p) for j, p in zip(J, pos)]), lambda J: value)
                return
            tgt = self[tgt_key]
            if isinstance(value, SymArray):
                g = bcast_to(value, tgt._shape)
            else:
                g = lambda J: value  # noqa
            tgt._write(lambda J: True, g)
            return
        if len(arrs) == 1 and key[arrs[0]].dtype.kind == "b":
            p = arrs[0]
            k = key[p]
            if k.ndim == self.ndim and len(key) == 1:
                for a, b in zip(k._shape, self._shape):
                    if not _dim_eq(a, b):
                        raise VIndexError("boolean index did not match indexed array")
                fk = k.snap()
                cond = lambda J: zb(truth(fk(J)).e)  # noqa
                if isinstance(value, SymArray) and value.ndim > 0 and not value.is_one():
                    if k.ndim > 1:
                        raise Unsupported("2-d mask assignment")
                    rec = mask_rec(k)
                    if not _dim_eq(value._shape[0], rec.m):
                        raise VValueError("NumPy boolean array indexing assignment cannot assign")
                    fv = value.snap()
                    self._write(cond, lambda J: fv((rec.rank(J[0]),)))
                else:
                    v = value.as_scalar() if isinstance(value, SymArray) else value
                    self._write(cond, lambda J: v)
                return
            # mask on one axis, other axes basic
            rest = list(key)
            rest[p] = slice(None)
            tgt = self[tuple(rest)]
            pos = sum(1 for x in key[:p] if x is None or isinstance(x, slice))
            fk = k.snap()
            if not _dim_eq(k._shape[0], tgt._shape[pos]):
                raise VIndexError("boolean index did not match indexed array")
            cond = lambda J: zb(truth(fk((J[pos],))).e)  # noqa
            if isinstance(value, SymArray) and value.ndim > 0 and not value.is_one():
                rec = mask_rec(k)
                tshape = list(tgt._shape)
                tshape[pos] = rec.m
                g = bcast_to(value, tuple(tshape))

                def val(J):
                    J = list(J)
                    J[pos] = rec.rank(J[pos])
                    return g(tuple(J))

                tgt._write(cond, val)
            else:
                v = value.as_scalar() if isinstance(value, SymArray) else value
                tgt._write(cond, lambda J: v)
            return
        if len(arrs) == 1 and key[arrs[0]].ndim == 1 and key[arrs[0]].concrete_shape():
            k = key[arrs[0]]
            p = arrs[0]
            for j in range(k._shape[0]):
                kk = list(key)
                kk[p] = k.at(j)
                if isinstance(value, SymArray) and value.ndim > 0:
                    self[tuple(kk)] = value[j] if not value.is_one() else value.as_scalar()
                else:
                    self[tuple(kk)] = value
            return
        raise Unsupported("fancy assignment")

    def is_one(self):
        return self.concrete_shape() and all(d == 1 for d in self._shape)

    # -- reductions
    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        plain(k, dtype=dtype)
        r = reduce_sum(self, axis, keepdims)
        if self.dtype.kind == "b" and self.ndim == 1 and isinstance(r, SInt) and not isinstance(self._shape[0], int) and not cx().hyps:
            # the number of selected positions
            cx().add(r.e == zi(mask_rec(self).m))
        return r

    def mean(self, axis=None, **k):
        plain(k)
        s = reduce_sum(self, axis)
        n = self.size if axis is None else dimval(self._shape[axis])
        if isinstance(s, SymArray):
            return s / (n * 1.0)
        return arith("/", s, n)

    def any(self, axis=None, **k):
        plain(k)
        return reduce_any(self, axis)

    def all(self, axis=None, **k):
        plain(k)
        return reduce_all(self, axis)

    def min(self, axis=None, **k):
        plain(k)
        return reduce_ext(self, axis, "min")

    def max(self, axis=None, **k):
        plain(k)
        return reduce_ext(self, axis, "max")

    def std(self, axis=None, **k):
        plain(k, axis=axis)
        m = self.mean()
        from . import trans

        return trans.sqrt(((self - m) ** 2).mean())

    def var(self, axis=None, **k):
        plain(k, axis=axis)
        m = self.mean()
        return ((self - m) ** 2).mean()

    def prod(self, axis=None, **k):
        plain(k)
        if self.concrete_shape() and self.ndim == 1:
            r = 1
            for i in range(self._shape[0]):
                r = self.at(i) * r
            return r
        raise Unsupported("symbolic prod")

    def cumsum(self, axis=None, **k):
        plain(k)
        return cumsum(one_dim(self, axis))

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def fill(self, v):
        self._write(lambda J: True, lambda J: v)

    def clip(self, lo=None, hi=None, out=None, **k):
        return clip(self, k.pop("min", k.pop("lower", lo)), k.pop("max", k.pop("upper", hi)), out if not plain(k) else None)

    def argsort(self, axis=-1, **k):
        return argsort(one_dim(self, axis))

    def argmax(self, axis=None, **k):
        plain(k)
        return reduce_arg(self, axis, "max")

    def argmin(self, axis=None, **k):
        plain(k)
        return reduce_arg(self, axis, "min")

    def nonzero(self):
        rec = mask_rec(self if self.dtype.kind == "b" else (self != 0))
        return (SymArray((rec.m,), lambda idx: SInt(zi(rec.sel(idx[0]))), I8, comp=rec),)

    def repeat(self, k, axis=None):
        return repeat(self, k, axis)

    def squeeze_(self):
        return self.squeeze()

    def tobytes(self):
        raise Unsupported("tobytes")

    def to_numpy(self, *a, **k):
        return self


def plain(k, **more):
    """keywords that are not modelled must have their defaults"""
    for q, v in list(k.items()) + list(more.items()):
        if v is None or v is np._NoValue or (q == "keepdims" and v is False) or (q == "ddof" and v == 0):
            continue
        if q == "dtype" and v in (float, np.float64, int, np.int64, "float64", "int64"):
            continue
        raise Unsupported("keyword " + q)


def one_dim(a, axis=None):
    if a.ndim > 1 or axis not in (None, 0, -1):
        raise Unsupported("operation along an axis of a matrix")
    return a


def _dim_eq(a, b):
    """fork on the equality of two dimensions"""
    e = ieq(a, b)
    if isinstance(e, bool):
        return e
    return cx().branch(e)


def wrap_neg(t, d):
    if isinstance(t, int):
        if t < 0:
            return iadd(d, t)
        return t
    if cx().valid(t >= 0):
        return t
    return ix(z3.simplify(z3.If(t < 0, t + zi(d), t)))


def _all_nonneg(k):
    return exists_fast(k._shape, lambda idx: cmp("<", k.snap()(idx), 0)) is False


def bound_check(k, d):
    f = k.snap()
    b = exists_nd(k._shape, lambda idx: SBool(bor(zb(cmp(">=", f(idx), dimval(d)).e), zb(cmp("<", f(idx), SInt(-zi(d))).e))))
    if bool(b):
        raise VIndexError("index is out of bounds")


# ------------------------------------------------------------ construction
def from_np(a):
    a = np.asarray(a)
    dt = a.dtype
    if dt.kind == "u":
        dt = I8
    if a.size > 4096:
        raise Unsupported("large concrete array in symbolic code")
    b = a.copy()

    def f(idx):
        if all(isinstance(i, int) for i in idx):
            v = b[idx]
            return v.item() if isinstance(v, np.generic) else v
        if b.size == 0:
            return 0
        if len(idx) == 1:
            r = b[-1].item()
            for j in range(len(b) - 2, -1, -1):
                r = ite(ieq(idx[0], j), b[j].item(), r)
            return r
        r = None
        for J in np.ndindex(*b.shape):
            v = b[J].item()
            r = v if r is None else ite(band(*[ieq(x, y) for x, y in zip(idx, J)]), v, r)
        return r

    return SymArray(a.shape, f, dt)


def full(shape, v, dtype=None):
    if isinstance(shape, (int, np.integer, SInt)):
        shape = (shape,)
    if dtype is None:
        if isinstance(v, (bool, np.bool_, SBool)):
            dtype = B1
        elif isinstance(v, (int, np.integer, SInt)):
            dtype = I8
        else:
            dtype = F8
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        w = float(v) if isinstance(v, (int, float, np.number)) else as_real(v)
    elif dtype.kind in "iu":
        w = int(v) if isinstance(v, (int, float, np.number)) else cast(v, dtype)
    elif dtype.kind == "b":
        w = bool(v) if isinstance(v, (int, float, np.number, np.bool_)) else cast(v, dtype)
    else:
        w = v
    for d in shape:
        d = ix(d)
        if not isinstance(d, int) and not cx().valid(d >= 0):
            if cx().branch(d < 0):
                raise VValueError("negative dimensions are not allowed")
    return SymArray(shape, lambda idx: w, dtype)


def stack_scalars(xs):
    """1-d array of python/symbolic scalars"""
    xs = list(xs)
    ls = [lift(x) for x in xs]
    if any(isinstance(x, SReal) for x in ls):
        dt = F8
        xs = [x if isinstance(x, float) else as_real(x) for x in xs]
    elif ls and all(isinstance(x, SBool) for x in ls):
        dt = B1
    else:
        dt = I8 if ls else F8

    def f(idx):
        i = idx[0]
        if isinstance(i, int):
            return xs[i]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = ite(ieq(i, j), xs[j], r)
        return r

    return SymArray((len(xs),), f, dt)


def stack_arrays(xs, axis=0):
    xs = list(xs)
    shape = xs[0]._shape
    for x in xs[1:]:
        for a, b in zip(x._shape, shape):
            if not _dim_eq(a, b):
                raise VValueError("all input arrays must have the same shape")
    fs = [x.snap() for x in xs]
    dt = result_dtype(*xs)
    if axis < 0:
        axis += len(shape) + 1

    def f(idx):
        k = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1 :])
        if isinstance(k, int):
            return _conv(fs[k](rest), dt)
        r = _conv(fs[-1](rest), dt)
        for j in range(len(fs) - 2, -1, -1):
            r = ite(ieq(k, j), _conv(fs[j](rest), dt), r)
        return r

    return SymArray(shape[:axis] + (len(xs),) + shape[axis:], f, dt)


def _conv(x, dt):
    if dt.kind == "f" and not isinstance(x, float):
        return as_real(x)
    if dt.kind in "iu" and isinstance(x, (bool, SBool)):
        return lift(x)._i()
    return x


def asarray(x, dtype=None):
    if getattr(x, "_sym_kind", None) in ("series", "frame"):
        x = x.values
    if isinstance(x, SymArray):
        if dtype is not None and np.dtype(dtype) != x.dtype:
            return x.astype(dtype)
        return x
    if isinstance(x, np.ndarray):
        r = from_np(x)
    elif isinstance(x, (list, tuple)):
        if len(x) and any(isinstance(y, (SymArray, list, tuple, np.ndarray)) and not (isinstance(y, np.ndarray) and y.ndim == 0) for y in x):
            r = stack_arrays([asarray(y) for y in x])
        elif all(is_scalar(y) or (hasattr(y, "as_scalar")) for y in x):
            r = stack_scalars([lift(y) if hasattr(y, "as_scalar") else y for y in x])
        else:
            r = None
            try:
                r = from_np(np.asarray(x))
            except Exception:
                raise Unsupported("asarray")
    elif is_scalar(x):
        x0 = x
        r = SymArray((), lambda idx: x0, lift(x).dtype)
    else:
        raise Unsupported("asarray of %r" % type(x))
    if dtype is not None and np.dtype(dtype) != r.dtype:
        r = r.astype(dtype)
    return r


def arange(*a, dtype=None, **k):
    a = [simp(x) if isinstance(x, Sym) else x for x in a]
    if all(isinstance(x, (int, float, np.number)) for x in a):
        return from_np(np.arange(*a, dtype=dtype, **k))
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if st != 1 or isinstance(hi, SReal) or isinstance(lo, SReal):
        raise Unsupported("arange with step")
    lo, hi = ix(lo), ix(hi)
    n = isub(hi, lo)
    if not isinstance(n, int) and not cx().valid(n >= 0):
        n = ix(z3.If(n >= 0, n, z3.IntVal(0)))
    r = SymArray((n,), lambda idx: simp(SInt(zi(iadd(lo, idx[0])))), I8)
    return r.astype(dtype) if dtype is not None and np.dtype(dtype) != I8 else r


# ------------------------------------------------------------ broadcasting
def broadcast_shape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        ds = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        d = 1
        for e in ds:
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            q = ieq(d, e)
            if q is True:
                continue
            if q is False:
                raise VValueError("operands could not be broadcast together")
            c = cx()
            if c.branch(q):
                if not isinstance(d, int) and isinstance(e, int):
                    d = e
                continue
            if c.branch(zi(e) == 1):
                continue
            if c.branch(zi(d) == 1):
                d = e
                continue
            raise VValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bcast(a, shape):
    """element function of a broadcast to shape"""
    f = a.snap()
    s = a._shape
    off = len(shape) - len(s)
    pl = []
    for k, d in enumerate(s):
        if isinstance(d, int) and d == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1):
            pl.append(None)
        elif not sameint(d, shape[off + k]):
            if cx().valid(zi(d) == 1):
                pl.append(None)
            else:
                raise Unsupported("broadcast")
        else:
            pl.append(off + k)

    def g(idx):
        return f(tuple(0 if p is None else idx[p] for p in pl))

    return g


def bcast_to(a, shape):
    sh = broadcast_shape(a._shape, shape)
    if len(sh) != len(shape) or not all(sameint(x, y) for x, y in zip(sh, shape)):
        # leading ones may be dropped on assignment
        if len(a._shape) > len(shape) and all(isinstance(d, int) and d == 1 for d in a._shape[: len(a._shape) - len(shape)]):
            lead = len(a._shape) - len(shape)
            return bcast_to(a[(0,) * lead], shape)
        raise VValueError("could not broadcast input array")
    return bcast(a, shape)


def result_dtype(*xs):
    k = "b"
    for x in xs:
        kd = x.dtype.kind if hasattr(x, "dtype") else np.asarray(x).dtype.kind
        if kd == "O":
            return OB
        if kd == "f":
            k = "f"
        elif kd in "iu" and k == "b":
            k = "i"
    return {"b": B1, "i": I8, "f": F8}[k]


def elementwise(fn, *args, dtype=None):
    """fn on scalars applied pointwise with broadcasting; None if all scalar"""
    xs = []
    anyarr = False
    comp = None
    for a in args:
        if getattr(a, "_sym_kind", None) in ("series", "frame"):
            a = a.values
        if isinstance(a, SymArray):
            anyarr = True
            xs.append(a)
            comp = comp or a.comp
        elif isinstance(a, np.ndarray) and a.ndim > 0:
            anyarr = True
            xs.append(from_np(a))
        elif isinstance(a, (list, tuple)):
            anyarr = True
            xs.append(asarray(a))
        else:
            xs.append(a.item() if isinstance(a, (np.ndarray, np.generic)) else a)
    if not anyarr:
        return fn(*xs)
    shape = broadcast_shape(*[x._shape for x in xs if isinstance(x, SymArray)])
    if all(isinstance(x, SymArray) and x.ndim == 0 or not isinstance(x, SymArray) for x in xs):
        return fn(*[x.as_scalar() if isinstance(x, SymArray) else x for x in xs])
    fs = []
    for x in xs:
        if isinstance(x, SymArray):
            fs.append(bcast(x, shape))
        else:
            fs.append(lambda idx, x=x: x)

    def g(idx):
        return fn(*[h(idx) for h in fs])

    if dtype is None:
        dtype = result_dtype(*[x if isinstance(x, SymArray) else lift(x) for x in xs])
    return SymArray(shape, g, dtype, comp=comp if len(shape) and comp is not None and sameint(comp.m, shape[0]) else None)


def _binop(op):
    def f(self, o):
        if getattr(o, "_sym_kind", None) in ("series", "frame") and self._sym_kind == "array":
            return NotImplemented
        if not (is_scalar(o) or isinstance(o, (SymArray, np.ndarray, list, tuple)) or hasattr(o, "_sym_kind")):
            return NotImplemented
        dt = F8 if op == "/" else None
        return elementwise(lambda a, b: _ar(op, a, b), self, o, dtype=dt)

    def g(self, o):
        if not (is_scalar(o) or isinstance(o, (SymArray, np.ndarray, list, tuple))):
            return NotImplemented
        dt = F8 if op == "/" else None
        return elementwise(lambda a, b: _ar(op, b, a), self, o, dtype=dt)

    def h(self, o):
        r = f(self, o)
        if self.dtype.kind in "iu" and op == "/" or (self.dtype.kind in "iub" and r.dtype.kind == "f"):
            raise VTypeError("Cannot cast ufunc output from float64 to int64")
        fr = bcast_to(r, self._shape)
        self._write(lambda J: True, fr)
        return self

    return f, g, h


def _ar(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym) and op in "+-*":
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if isinstance(a, int) and isinstance(b, int):
            return a + b if op == "+" else a - b if op == "-" else a * b
    return arith(op, a, b)


for _nm, _op in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**")]:
    _f, _g, _h = _binop(_op)
    setattr(SymArray, f"__{_nm}__", _f)
    setattr(SymArray, f"__r{_nm}__", _g)
    setattr(SymArray, f"__i{_nm}__", _h)
for _nm, _op in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")]:

    def _c(self, o, _op=_op):
        if isinstance(o, str) or o is None:
            return _op == "!="
        if getattr(o, "_sym_kind", None) in ("series", "frame") and self._sym_kind == "array":
            return NotImplemented
        return elementwise(lambda a, b: cmp(_op, a, b), self, o, dtype=B1)

    setattr(SymArray, f"__{_nm}__", _c)


def _logic(op):
    def f(self, o):
        def h(a, b):
            a, b = lift(a), lift(b)
            return (a & b) if op == "&" else (a | b) if op == "|" else (a ^ b)

        return elementwise(h, self, o)

    return f


SymArray.__and__ = SymArray.__rand__ = _logic("&")
SymArray.__or__ = SymArray.__ror__ = _logic("|")
SymArray.__xor__ = SymArray.__rxor__ = _logic("^")


def _iand(op):
    g = _logic(op)

    def f(self, o):
        r = g(self, o)
        self._write(lambda J: True, bcast_to(r, self._shape))
        return self

    return f


SymArray.__iand__ = _iand("&")
SymArray.__ior__ = _iand("|")
SymArray.__invert__ = lambda self: elementwise(lambda a: ~lift(a), self, dtype=self.dtype)
SymArray.__neg__ = lambda self: elementwise(lambda a: -lift(a), self)
SymArray.__pos__ = lambda self: self
SymArray.__abs__ = lambda self: elementwise(sabs, self)


# ---------------------------------------------------------------- masks
class MaskRec:
    """selection by a Boolean mask: m selected, sel: k -> position, rank: position -> k"""

    def __init__(self, mask):
        c = cx()
        self.n = mask._shape[0]
        self.f = mask.snap()
        self.concrete = None
        if isinstance(self.n, int):
            vals = [simp(truth(self.f((i,)))) for i in range(self.n)]
            if all(isinstance(v, bool) for v in vals):
                self.concrete = [i for i, v in enumerate(vals) if v]
                self.m = len(self.concrete)
                return
            # decide every entry by forking: small concrete masks
            if self.n <= 4:
                vals = [bool(lift(v)) for v in vals]
                self.concrete = [i for i, v in enumerate(vals) if v]
                self.m = len(self.concrete)
                return
        k = c.nfresh.get("mask", 0)
        c.nfresh["mask"] = k + 1
        self.m = z3.Int("count!%d" % k)
        self.SEL = z3.Function("sel!%d" % k, z3.IntSort(), z3.IntSort())
        self.RANK = z3.Function("rank!%d" % k, z3.IntSort(), z3.IntSort())
        n = zi(self.n)
        c.add(self.m >= 0)
        c.add(self.m <= n)
        self.seen, self.ranks = {}, {}
        # m == 0 or some element is selected
        w = z3.Int("maskwit!%d" % k)
        c.add(z3.Or(self.m == 0, z3.And(w >= 0, w < n, self.SEL(z3.IntVal(0)) == w)))
        it = sums.iota(self.n, 0)
        with c.under(it >= 0, it < n):
            e = zb(truth(self.f((it,))).e)
            c.no_outer(it, e)
            if c.valid(e):
                every = True
            else:
                every = False
            none = c.unsat(e)
        if every:
            c.add(self.m == n)
            self.m = self.n
            self.identity = True
            return
        self.identity = False
        if none:
            c.add(self.m == 0)
        c.universal(lambda t: self._inst(t))

    def _inst(self, t):
        c = cx()
        n = zi(self.n)
        if t.get_id() in c.memo.get("iotas", {}):
            pass
        if z3.is_app(t) and t.decl().eq(self.SEL) or z3.is_app(t) and t.decl().eq(self.RANK):
            return
        # positions: a selected position makes the count positive
        with c.under(t >= 0, t < n):
            e = zb(truth(self.f((ix(t),))).e)
            c.add(z3.Implies(e, self.m >= 1))
            c.add(z3.Implies(z3.Not(e), self.m <= n - 1))

    def sel(self, k):
        c = cx()
        if self.concrete is not None:
            if isinstance(k, int):
                return self.concrete[k] if 0 <= k < len(self.concrete) else 0
            r = z3.IntVal(self.concrete[-1] if self.concrete else 0)
            for j in range(len(self.concrete) - 2, -1, -1):
                r = z3.If(k == j, z3.IntVal(self.concrete[j]), r)
            return ix(z3.simplify(r))
        if self.identity:
            return k
        if is_z3(k) and z3.is_app(k) and k.decl().eq(self.RANK):
            return ix(k.arg(0))
        k = zi(k)
        s = self.SEL(k)
        if k.get_id() not in self.seen:
            old = list(self.seen.values())
            self.seen[k.get_id()] = (k, s)
            n = zi(self.n)
            g = z3.And(k >= 0, k < self.m)
            with c.bare():
                c.add(z3.And(s >= 0, s < n, self.RANK(s) == k), g)
                with c.under(k >= 0, k < self.m):
                    c.add(zb(truth(self.f((s,))).e))
            c.register(s)
            with c.bare():
                for (k2, s2) in old:
                    c.add((k < k2) == (s < s2), z3.And(g, k2 >= 0, k2 < self.m))
            if num_of(k) == 0 and not c.hyps:
                c.universal(lambda t: self._first(t, s))
        return s

    def _first(self, t, s):
        """nothing before the first selected position is selected"""
        if t.eq(s):
            return
        c = cx()
        with c.under(t >= 0, t < s, s < zi(self.n), self.m >= 1):
            c.add(z3.Not(zb(truth(self.f((ix(t),))).e)))

    def rank(self, i):
        c = cx()
        if self.concrete is not None:
            if isinstance(i, int):
                return self.concrete.index(i) if i in self.concrete else 0
            r = z3.IntVal(0)
            for j, p in enumerate(self.concrete):
                r = z3.If(i == p, z3.IntVal(j), r)
            return ix(z3.simplify(r))
        if self.identity:
            return i
        i = zi(i)
        r = self.RANK(i)
        if i.get_id() not in self.ranks:
            self.ranks[i.get_id()] = (i, r)
            n = zi(self.n)
            with c.bare(), c.under(i >= 0, i < n):
                c.add(z3.Implies(zb(truth(self.f((ix(i),))).e), z3.And(r >= 0, r < self.m, self.SEL(r) == i)))
        return r


def mask_rec(mask):
    """records are shared by masks with the same elements (same expression at a generic index)"""
    c = cx()
    n = mask._shape[0]
    if isinstance(n, int):
        return MaskRec(mask)
    it = sums.iota(n, 0)
    f = mask.snap()
    with c.under(it >= 0, it < n):
        e = z3.simplify(zb(truth(f((it,))).e))
    key = ("mask", n.get_id(), e.get_id())
    if key not in c.memo:
        c.keep += [e, n]
        # equal to an older mask on the same domain?
        for (r2, n2, e2) in c.memo.setdefault("maskrecs", []):
            if n2.get_id() == n.get_id():
                with c.under(it >= 0, it < n):
                    if c.valid(e == e2):
                        c.memo[key] = r2
                        return r2
        r = MaskRec(mask)
        c.memo["maskrecs"].append((r, n, e))
        c.memo[key] = r
    return c.memo[key]


# ------------------------------------------------------- quantified values
def exists_fast(shape, p):
    """False/True when decided at the generic index, else None"""
    c = cx()
    idx, rs = generic(shape)
    with c.under(*rs):
        e = zb(truth(p(idx)).e)
        if c.unsat(e):
            return False
        every = c.valid(e)
    if every and c.valid(band(*[ilt(0, d) for d in shape])):
        return True
    return None


def generic(shape, base=0):
    idx, rs = [], []
    for k, d in enumerate(shape):
        it = sums.iota(d, ("g", k + base))
        idx.append(it)
        rs.append(rng(it, d))
    return tuple(idx), rs


def exists_nd(shape, p):
    """SBool: some index satisfies p"""
    c = cx()
    shape = tuple(shape)
    if all(isinstance(d, int) for d in shape):
        tot = 1
        for d in shape:
            tot *= d
        if tot <= 64:
            return SBool(bor(*[zb(truth(p(J)).e) for J in np.ndindex(*shape)]))
    f = exists_fast(shape, p)
    if f is not None:
        return SBool(f)
    idx, rs = generic(shape)
    with c.under(*rs):
        e = z3.simplify(zb(truth(p(idx)).e))
    ke = e
    if len(shape) == 1 and is_z3(idx[0]):
        ke = z3.simplify(sums.canon(shape[0], ("g", 0), idx[0], e)[1])
        c.keep.append(ke)
    key = ("ex", tuple(zi(d).get_id() for d in shape), ke.get_id())
    if key in c.memo:
        return SBool(c.memo[key])
    c.keep += [e] + [zi(d) for d in shape]
    b = c.fresh("some", "B")
    # under outer generic indices the value depends on them
    others = [v for i, v in c.memo.get("iotas", {}).items() if i not in {x.get_id() for x in idx if is_z3(x)} and sums.contains(e, frozenset([i]))]
    if others:
        F = c.func("some", *(["I"] * len(others)), "B")
        b = F(*others)
        W = [c.func("somewit", *(["I"] * len(others)), "I")(*others) for _ in shape]
    else:
        W = [c.fresh("somewit", "I") for _ in shape]
    c.memo[key] = b
    ranges = band(*[rng(w, d) for w, d in zip(W, shape)])
    for w in W:
        c.register(w)
    with c.under(*[rng(w, d) for w, d in zip(W, shape)]):
        ew = zb(truth(p(tuple(W))).e)
    c.add(z3.Implies(b, z3.And(zb(ranges), ew)))
    if len(shape) == 1:

        def u(t):
            with c.under(rng(ix(t), shape[0])):
                c.add(z3.Implies(zb(truth(p((ix(t),))).e), b))

        c.universal(u)
    else:

        def u2(t):
            # all pairs with registered terms
            for s in list(c.terms):
                for pair in ((t, s), (s, t)):
                    J = tuple(ix(x) for x in pair) if len(shape) == 2 else None
                    if J is None:
                        return
                    if all(isinstance(d, int) for d in shape):
                        continue
                    with c.under(*[rng(j, d) for j, d in zip(J, shape)]):
                        c.add(z3.Implies(zb(truth(p(J)).e), b))

        if len(shape) == 2 and isinstance(shape[1], int) and shape[1] <= 4:

            def u3(t):
                for k in range(shape[1]):
                    J = (ix(t), k)
                    with c.under(rng(J[0], shape[0])):
                        c.add(z3.Implies(zb(truth(p(J)).e), b))

            c.universal(u3)
        else:
            c.universal(u2)
    return SBool(b)


def exists(n, p):
    return exists_nd((n,), lambda idx: p(idx[0]))


def reduce_any(a, axis=None):
    f = a.snap()
    if axis is None or a.ndim == 1:
        if a.comp is not None and a.ndim == 1 and a.comp.concrete is None and not a.comp.identity:
            r = a.comp
            return exists_nd((r.n,), lambda idx: SBool(band(zb(truth(r.f(idx)).e), zb(truth(f((r.rank(idx[0]),))).e))))
        return exists_nd(a._shape, lambda idx: truth(f(idx)))
    if axis < 0:
        axis += a.ndim
    shape = a._shape[:axis] + a._shape[axis + 1 :]

    def g(idx):
        return exists_nd((a._shape[axis],), lambda j: truth(f(tuple(idx[:axis]) + (j[0],) + tuple(idx[axis:]))))

    return SymArray(shape, g, B1)


def reduce_all(a, axis=None):
    neg = elementwise(lambda x: ~truth(x), a, dtype=B1)
    r = reduce_any(neg, axis)
    return ~r


class Twin:
    """Two runs of the same code compared: a sum of the second run whose terms are, one by
    one, those of the corresponding sum of the first run is replaced by the latter."""

    def __init__(self, split=None):
        """split: condition on the index by which the comparison of the terms is split"""
        self.rec, self.pos, self.second, self.cuts, self.split = [], 0, False, 0, split

    def rewind(self):
        self.second, self.pos = True, 0

    def meet(self, kind, dims, term, result):
        """dims: index ranges, term(*indices): the term of the sum"""
        if not self.second:
            self.rec.append((kind, dims, term, result.copy() if isinstance(result, SymArray) else result))
            return result
        if self.pos >= len(self.rec) or self.rec[self.pos][0] != kind:
            self.pos = len(self.rec)
            return result
        k0, d0, t0, r0 = self.rec[self.pos]
        self.pos += 1
        c = cx()
        if len(dims) != len(d0) or not all(sameint(a, b) for a, b in zip(dims, d0)):
            return result
        sk = [c.fresh("tw", "I") for _ in dims]
        with c.under(*[rng(s, ix(n)) for s, n in zip(sk, dims)]):
            ok = False
            try:
                ok = c.valid(zb(same(term(*sk), t0(*sk)).e))
                if not ok and self.split is not None:
                    d = truth(self.split(dimval(sk[0]))).e
                    ok = True
                    for e in (d, bnot(d)):
                        with c.under(e):
                            ok = ok and c.valid(zb(same(term(*sk), t0(*sk)).e))
            except Unsupported:
                ok = False
        if ok:
            self.cuts += 1
            return r0.copy() if isinstance(r0, SymArray) else r0
        return result


def reduce_sum(a, axis=None, keepdims=False):
    tw = cx().memo.get("twin")
    if tw is not None and axis is None and a.ndim == 1 and a.comp is None:
        fa = a.snap()
        return tw.meet("sum", (a._shape[0],), lambda i: fa((i,)), _reduce_sum(a, axis, keepdims))
    return _reduce_sum(a, axis, keepdims)


def _reduce_sum(a, axis=None, keepdims=False):
    if a.dtype.kind == "b":
        f0 = a.snap()
        f = lambda idx: truth(f0(idx))._i()  # noqa
    else:
        f = a.snap()
    if a.ndim == 0:
        return f(())
    if axis is None:
        if a.ndim == 1:
            if a.comp is not None and a.comp.concrete is None and not a.comp.identity:
                r = a.comp
                g = lambda i: ite(truth(r.f((i,))), f((r.rank(i),)), 0 if a.dtype.kind in "iub" else 0.0)  # noqa
                return sums.sum_over(r.n, g)
            return sums.sum_over(a._shape[0], lambda i: f((i,)))
        inner = reduce_sum(a, 1 if a.ndim == 2 else a.ndim - 1)
        return reduce_sum(inner)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_sum(a)
        raise Unsupported("sum over several axes")
    if axis < 0:
        axis += a.ndim
    if a.ndim == 1:
        r = reduce_sum(a)
        return SymArray((1,), lambda idx: r, a.dtype) if keepdims else r
    shape = a._shape[:axis] + ((1,) if keepdims else ()) + a._shape[axis + 1 :]
    comp = a.comp if axis == 0 else None
    if comp is not None and (comp.concrete is not None or comp.identity):
        comp = None

    def g(idx):
        pre, post = tuple(idx[:axis]), tuple(idx[axis + (1 if keepdims else 0) :])
        if comp is not None:
            return sums.sum_over(comp.n, lambda i: ite(truth(comp.f((i,))), f((comp.rank(i),) + post), 0.0))
        return sums.sum_over(a._shape[axis], lambda i: f(pre + (i,) + post))

    dt = a.dtype if a.dtype.kind != "b" else I8
    return SymArray(shape, g, dt)


def reduce_ext(a, axis, which):
    c = cx()
    f = a.snap()
    pick = smax if which == "max" else smin
    if axis is not None and a.ndim > 1:
        if axis < 0:
            axis += a.ndim
        shape = a._shape[:axis] + a._shape[axis + 1 :]

        def g(idx):
            sl = SymArray((a._shape[axis],), lambda j: f(tuple(idx[:axis]) + (j[0],) + tuple(idx[axis:])), a.dtype, comp=a.comp if axis == 0 else None)
            return reduce_ext(sl, None, which)

        return SymArray(shape, g, a.dtype)
    if a.ndim == 0:
        return f(())
    if a.concrete_shape():
        vals = [f(J) for J in np.ndindex(*a._shape)]
        if not vals:
            raise VValueError("zero-size array to reduction operation")
        r = vals[0]
        for v in vals[1:]:
            r = pick(r, v)
        return r
    if a.ndim == 2 and any(isinstance(d, int) and d > 0 for d in a._shape):
        k = 1 if isinstance(a._shape[1], int) else 0
        parts = [reduce_ext(SymArray((a._shape[1 - k],), (lambda j, q=q: f((j[0], q) if k == 1 else (q, j[0]))), a.dtype), None, which) for q in range(a._shape[k])]
        r = parts[0]
        for v in parts[1:]:
            r = pick(r, v)
        return r
    if a.ndim > 1:
        raise Unsupported("extremum of a 2-d symbolic array")
    n = zi(a._shape[0])
    if c.branch(n == 0):
        raise VValueError("zero-size array to reduction operation %simum which has no identity" % which)
    it = sums.iota(a._shape[0], ("g", 0))
    with c.under(it >= 0, it < n):
        e = lift(f((it,)))
        if isinstance(e, SBool):
            e = e._i()
        isint = isinstance(e, SInt)
        if not isint and not (e.pinf is False and e.ninf is False and e.nan is False):
            c.register(it)
            if c.valid(bnot(bor(e.nan, e.pinf, e.ninf))):
                e = SReal(e.v)
        if not isint and e.nan is not False:
            nanany = exists(a._shape[0], lambda i: isnan(f((i,))))
        else:
            nanany = SBool(False)
        if not isint and not (e.pinf is False and e.ninf is False):
            raise Unsupported("extremum with infinities")
    ce = sums.canon(a._shape[0], ("g", 0), it, e.e if isint else e.v, zb(nanany.e))
    key = ("ext", which, n.get_id(), ce[1].get_id(), ce[2].get_id())
    if key in c.memo:
        return c.memo[key]
    # the largest x is the negative of the smallest -x
    plus, minus = z3.simplify(ce[1]), z3.simplify(-ce[1])
    c.keep += [plus, minus]
    opp = c.memo.get(("ext-of", "min" if which == "max" else "max", n.get_id(), minus.get_id(), ce[2].get_id()))
    if opp is not None:
        c.memo[key] = -opp
        return c.memo[key]
    c.keep += [n, e.e if isint else e.v, zb(nanany.e)]
    others = [v for i, v in c.memo.get("iotas", {}).items() if i != it.get_id() and sums.contains(e.e if isint else e.v, frozenset([i]))]
    if others:
        m = c.func(which, *(["I"] * len(others)), "I" if isint else "R")(*others)
        w = c.func(which + "at", *(["I"] * len(others)), "I")(*others)
    else:
        m = c.fresh(which, "I" if isint else "R")
        w = c.fresh(which + "at", "I")
    c.register(w)
    c.add(z3.And(w >= 0, w < n))

    def val(t):
        x = lift(f((ix(t),)))
        if isinstance(x, SBool):
            x = x._i()
        return x.e if isint else x.v

    with c.under(w >= 0, w < n):
        c.add(m == val(w), bnot(nanany.e))

    def u(t):
        with c.under(t >= 0, t < n):
            c.add(m >= val(t) if which == "max" else m <= val(t), bnot(nanany.e))

    c.universal(u)
    rec = a.comp
    if rec is not None and rec.concrete is None and not rec.identity and a.ndim == 1:

        def u2(t):
            with c.under(t >= 0, t < zi(rec.n)):
                e = zb(truth(rec.f((ix(t),))).e)
                if c.valid(z3.Not(e)):
                    return
                with c.under(e):
                    v = val(rec.rank(t))
                    c.add(m >= v if which == "max" else m <= v, bnot(nanany.e))

        c.universal(u2)
    res = SInt(m) if isint else SReal(m, prune(nanany.e))
    c.memo[key] = res
    c.memo["ext-of", which, n.get_id(), plus.get_id(), ce[2].get_id()] = res
    return res


def reduce_arg(a, axis, which):
    c = cx()
    f = a.snap()
    if axis is not None and a.ndim > 1:
        if axis < 0:
            axis += a.ndim
        shape = a._shape[:axis] + a._shape[axis + 1 :]

        def g(idx):
            sl = SymArray((a._shape[axis],), lambda j: f(tuple(idx[:axis]) + (j[0],) + tuple(idx[axis:])), a.dtype)
            return reduce_arg(sl, None, which)

        return SymArray(shape, g, I8)
    if a.ndim != 1:
        raise Unsupported("argmax")
    n = a._shape[0]
    if isinstance(n, int):
        if n == 0:
            raise VValueError("attempt to get arg%s of an empty sequence" % which)
        best, bi = f((0,)), 0
        for j in range(1, n):
            v = f((j,))
            t = cmp(">" if which == "max" else "<", v, best)
            best, bi = ite(t, v, best), ite(t, j, bi)
        return bi
    zn = zi(n)
    if c.branch(zn == 0):
        raise VValueError("attempt to get arg%s of an empty sequence" % which)
    it = sums.iota(n, ("g", 0))
    with c.under(it >= 0, it < zn):
        e = lift(f((it,)))
    le = lift(e)
    fl = [zb(le.nan), zb(le.pinf), zb(le.ninf)] if isinstance(le, SReal) else []
    key = ("arg", which, zn.get_id(), tuple(x.get_id() for x in sums.canon(n, ("g", 0), it, _expr(e), *fl)[1:]))
    c.keep += fl
    if key in c.memo:
        return SInt(c.memo[key])
    c.keep += [zn, e]
    ee = _expr(e)
    others = [v for i, v in c.memo.get("iotas", {}).items() if i != it.get_id() and sums.contains(ee, frozenset([i]))]
    if others:
        w = c.func("arg" + which, *(["I"] * len(others)), "I")(*others)
    else:
        w = c.fresh("arg" + which, "I")
    c.memo[key] = w
    c.register(w)
    c.add(z3.And(w >= 0, w < zn))

    def num(x):
        x = lift(x)
        return x._i() if isinstance(x, SBool) else x

    def u(t):
        with c.under(t >= 0, t < zn):
            a1, a2 = num(f((ix(t),))), num(f((w,)))
            c.add(zb(cmp("<=" if which == "max" else ">=", a1, a2).e))
            c.add(z3.Implies(t < w, zb(cmp("<" if which == "max" else ">", a1, a2).e)))

    c.universal(u)
    return SInt(w)


def _expr(e):
    e = lift(e)
    return e.v if isinstance(e, SReal) else e.e


def _eid(e):
    e = lift(e)
    if isinstance(e, SReal):
        return (e.v.get_id(), zb(e.nan).get_id(), zb(e.pinf).get_id(), zb(e.ninf).get_id())
    return e.e.get_id()


# ---------------------------------------------------------------- others
def where(c, *ab):
    if not ab:
        return asarray(c).nonzero()
    a, b = ab
    return elementwise(lambda c, a, b: ite(truth(c), a, b), c, a, b, dtype=_wdt(a, b))


def _wdt(a, b):
    xs = []
    for x in (a, b):
        if isinstance(x, (SymArray, np.ndarray)) or hasattr(x, "_sym_kind"):
            xs.append(x if hasattr(x, "dtype") else x.values)
        elif isinstance(x, (list, tuple)):
            xs.append(asarray(x))
        else:
            xs.append(lift(x))
    return result_dtype(*xs)


def clip(a, lo, hi, out=None):
    def f(x, l=None, h=None):
        r = x
        if lo is not None:
            r = smax(r, l)
        if hi is not None:
            r = smin(r, h)
        return r

    args = [a] + [z for z in (lo, hi)]
    r = elementwise(lambda x, l, h: f(x, l, h), a, 0 if lo is None else lo, 0 if hi is None else hi)
    if out is not None:
        out._write(lambda J: True, bcast_to(r, out._shape))
        return out
    return r


def dot(a, b):
    a, b = asarray(a), asarray(b)
    fa, fb = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        if not _dim_eq(a._shape[0], b._shape[0]):
            raise VValueError("shapes not aligned")
        return sums.sum_over(a._shape[0], lambda i: lift(fa((i,))) * lift(fb((i,))))
    if a.ndim == 2 and b.ndim == 1:
        if not _dim_eq(a._shape[1], b._shape[0]):
            raise VValueError("shapes not aligned")
        return SymArray((a._shape[0],), lambda J: sums.sum_over(a._shape[1], lambda i: lift(fa((J[0], i))) * lift(fb((i,)))), result_dtype(a, b))
    if a.ndim == 1 and b.ndim == 2:
        if not _dim_eq(a._shape[0], b._shape[0]):
            raise VValueError("shapes not aligned")
        return SymArray((b._shape[1],), lambda J: sums.sum_over(a._shape[0], lambda i: lift(fa((i,))) * lift(fb((i, J[0])))), result_dtype(a, b))
    if a.ndim == 2 and b.ndim == 2:
        if not _dim_eq(a._shape[1], b._shape[0]):
            raise VValueError("shapes not aligned")
        return SymArray((a._shape[0], b._shape[1]), lambda J: sums.sum_over(a._shape[1], lambda i: lift(fa((J[0], i))) * lift(fb((i, J[1])))), result_dtype(a, b))
    raise Unsupported("dot")


def bincount(x, weights=None, minlength=0):
    x = asarray(x)
    c = cx()
    if x.dtype.kind not in "iub":
        raise VTypeError("Cannot cast array data from float64 to int64 according to the rule 'safe'")
    fx = x.snap()
    neg = exists_nd(x._shape, lambda idx: cmp("<", fx(idx), 0))
    if bool(neg):
        raise VValueError("'list' argument must have no negative elements")
    n = x._shape[0]
    ml = ix(minlength)
    # length: max(minlength, max(x)+1)
    over = exists_nd(x._shape, lambda idx: cmp(">=", fx(idx), dimval(ml)))
    if bool(over):
        m = reduce_ext(x, None, "max")
        length = ix(m + 1)
    else:
        length = ml
    fw = None
    if weights is not None:
        w = asarray(weights)
        if not _dim_eq(w._shape[0], n):
            raise VValueError("The weights and list don't have the same length.")
        fw = w.snap()

    comp = x.comp if x.comp is not None and x.comp.concrete is None and not x.comp.identity else None

    def g(idx):
        b = dimval(idx[0])

        def s(i):
            j = comp.rank(i) if comp is not None else i
            v = cmp("==", fx((j,)), b)
            if comp is not None:
                v = SBool(band(zb(truth(comp.f((i,))).e), v.e))
            return ite(v, 1 if fw is None else as_real(fw((j,))), 0 if fw is None else 0.0)

        r = sums.sum_over(comp.n if comp is not None else n, s)
        return r if fw is None else as_real(r)

    r = SymArray((length,), g, I8 if weights is None else F8)
    tw = c.memo.get("twin")
    if tw is not None and x.comp is None:

        def term(i, b):
            return ite(cmp("==", fx((i,)), dimval(b)), 1 if fw is None else as_real(fw((i,))), 0 if fw is None else 0.0)

        return tw.meet("bincount", (n, length), term, r)
    return r


def cumsum(a):
    f = a.snap()
    n = a._shape[0]
    if a.ndim != 1:
        raise Unsupported("cumsum")
    if isinstance(n, int):
        vals, t = [], None
        for i in range(n):
            t = f((i,)) if t is None else lift(t) + lift(f((i,)))
            vals.append(t)
        return stack_scalars(vals)
    c = cx()
    k = c.nfresh.get("cum", 0)
    c.nfresh["cum"] = k + 1
    C = z3.Function("cum!%d" % k, z3.IntSort(), z3.RealSort())
    seen = {}
    total = []
    comp = a.comp if a.comp is not None and a.comp.concrete is None and not a.comp.identity else None

    def val(i):
        e = as_real(f((ix(i),)))
        if not e.plain:
            raise Unsupported("cumsum of non-finite values")
        return e.v

    it = sums.iota(n, ("g", 0))
    with c.under(it >= 0, it < n):
        c.no_outer(it, val(it))
        nonneg = c.valid(val(it) >= 0)
    c.register(z3.simplify(n - 1))

    def g(idx):
        t = zi(idx[0])
        r = C(t)
        if t.get_id() not in seen:
            old = list(seen.values())
            seen[t.get_id()] = (t, r)
            v = val(t)
            c.add(z3.Implies(t == 0, r == v))
            inr = z3.And(t >= 0, t < n)
            if nonneg:
                c.add(r >= v, inr)
                c.add(z3.Implies(t > 0, z3.And(C(t - 1) == r - v, C(t - 1) >= 0)), inr)
            else:
                c.add(z3.Implies(t > 0, C(t - 1) == r - v), inr)
            for (u, ru) in old:
                g2 = z3.And(inr, u >= 0, u < n)
                if nonneg:
                    c.add(z3.And(z3.Implies(t <= u, r <= ru), z3.Implies(u <= t, ru <= r)), g2)
                    # one more element at least
                    c.add(z3.Implies(u < t, ru + v <= r), g2)
                    c.add(z3.Implies(t < u, r + val(u) <= ru), g2)
            if not total:
                total.append(1)
                with c.bare():
                    tot = as_real(sums.sum_over(n, lambda i: f((i,)))).v
                    total[0] = tot
                    for (pn, Q) in c.memo.get("perms", []):
                        if pn.eq(n):
                            # a sum does not depend on the order of its terms
                            c.add(tot == as_real(sums.sum_over(n, lambda i: f((Q(zi(i)),)))).v)
            if len(total) and not isinstance(total[0], int):
                c.add(z3.Implies(t == n - 1, r == total[0]), inr)
                if nonneg:
                    c.add(r <= total[0], inr)
            if comp is not None:
                masked(t, r, inr)
            if chosen(t):
                for (pn, Q) in c.memo.get("perms", []):
                    if pn.eq(n):
                        in_order(t, r, v, Q, inr)
        return SReal(r)

    def masked(t, r, inr):
        """cumulated over the selected elements up to the selected position"""
        s = zi(comp.sel(t))
        i0 = sums.iota(comp.n, ("g", 0))
        with c.under(rng(i0, comp.n)):
            # elements that are left out are zero
            zero = c.valid(bor(zb(truth(comp.f((i0,))).e), as_real(f((comp.rank(i0),))).v == 0))
        inside = lambda i: True if zero else truth(comp.f((i,)))  # noqa
        h = lambda i: ite(inside(i), ite(SBool(zi(i) <= s), f((comp.rank(i),)), 0.0), 0.0)  # noqa
        with c.under(inr):
            e = as_real(sums.sum_over(comp.n, h)).v
        c.add(r == e, inr)

    def in_order(t, r, v, Q, inr):
        """the cumulated value is the sum over the elements at or before the position in sorted order"""
        def upto(strict):
            def h(i):
                q = Q(zi(i))
                return ite(SBool(q < t if strict else q <= t), f((q,)), 0.0)

            return as_real(sums.sum_over(n, h)).v

        c.add(r == upto(False), inr)
        c.add(r - v == upto(True), inr)
        if chosen(t) == 1:
            c.register(z3.simplify(t - 1))

    def chosen(t):
        """1: a position selected by a mask, 2: the position before it"""
        if z3.is_app(t) and t.decl().name().startswith("sel!") and num_of(t.arg(0)) is not None:
            return 1
        if z3.is_add(t) and t.num_args() == 2 and num_of(t.arg(0)) == -1 and chosen(t.arg(1)) == 1:
            return 2
        return 0

    return SymArray((n,), g, F8)


def before(x, y):
    """order of sorting: missing values come last"""
    return bor(zb(isnan(y).e), zb(cmp("<=", x, y).e))


def repeated(t):
    """a sorting permutation applied to itself"""
    return z3.is_app(t) and t.decl().name().startswith("perm!") and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(t.decl())


def sort_perm(a):
    """perm: position in sorted order -> original position, inv its inverse (stable)"""
    c = cx()
    n = a._shape[0]
    f = a.snap()
    k = c.nfresh.get("perm", 0)
    c.nfresh["perm"] = k + 1
    P = z3.Function("perm!%d" % k, z3.IntSort(), z3.IntSort())
    Q = z3.Function("perminv!%d" % k, z3.IntSort(), z3.IntSort())
    zn = zi(n)
    seen = {}
    if not isinstance(n, int):
        c.memo.setdefault("perms", []).append((n, Q))

    def at(i):
        i = zi(i)
        if z3.is_app(i) and i.decl().eq(Q):
            return i.arg(0)
        p = P(i)
        if i.get_id() not in seen:
            old = list(seen.values())
            seen[i.get_id()] = (i, p)
            g = z3.And(i >= 0, i < zn)
            c.add(z3.And(p >= 0, p < zn, Q(p) == i), g)
            if not repeated(p):
                c.register(p)
            with c.under(i >= 0, i < zn):
                vi = f((p,))
            for (j, q) in old:
                with c.under(i >= 0, i < zn, j >= 0, j < zn):
                    vj = f((q,))
                    le = zb(before(vi, vj))
                    ge = zb(before(vj, vi))
                c.add(z3.And(z3.Implies(i <= j, le), z3.Implies(j <= i, ge)), z3.And(g, j >= 0, j < zn))
        return p

    def u(t):
        if z3.is_app(t) and (t.decl().eq(P) or t.decl().eq(Q)):
            return
        g = z3.And(t >= 0, t < zn)
        q = Q(t)
        c.add(z3.And(q >= 0, q < zn, P(q) == t), g)
        if q.get_id() not in seen:
            c.keep.append(q)
            at_q(q, t)

    def at_q(q, t):
        old = list(seen.values())
        seen[q.get_id()] = (q, t)
        g = z3.And(t >= 0, t < zn)
        with c.under(t >= 0, t < zn):
            vi = f((ix(t),))
        for (j, p) in old:
            with c.under(t >= 0, t < zn, j >= 0, j < zn):
                vj = f((ix(p),))
                le = zb(before(vi, vj))
                ge = zb(before(vj, vi))
            c.add(z3.And(z3.Implies(q <= j, le), z3.Implies(j <= q, ge)), z3.And(g, j >= 0, j < zn))

    if not isinstance(n, int):
        c.universal(u)
    return at


def argsort(a):
    if isinstance(a._shape[0], int):
        n = a._shape[0]
        if n <= 1:
            return arange(n)
        raise Unsupported("argsort of a concrete-length symbolic array")
    at = sort_perm(a)
    return SymArray(a._shape, lambda idx: SInt(zi(at(idx[0]))), I8)


def sort(a):
    if isinstance(a._shape[0], int) and a.ndim == 1:
        vals = [a.at(i) for i in range(a._shape[0])]
        # network
        for i in range(len(vals)):
            for j in range(len(vals) - 1 - i):
                x, y = vals[j], vals[j + 1]
                vals[j], vals[j + 1] = ite(SBool(before(x, y)), x, y), ite(SBool(before(x, y)), y, x)
        return stack_scalars(vals)
    f = a.snap()
    at = sort_perm(a)
    return SymArray(a._shape, lambda idx: f((ix(at(idx[0])),)), a.dtype)


def unique(a, return_inverse=False, return_counts=False, return_index=False):
    """sorted distinct values: length m, pos(i) = index of a[i], wit(k) = some i with a[i] == u[k]"""
    c = cx()
    a = asarray(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    n = zi(a._shape[0])
    f = a.snap()
    k = c.nfresh.get("uniq", 0)
    c.nfresh["uniq"] = k + 1
    if return_index:
        raise Unsupported("unique return_index")
    m = z3.Int("nuniq!%d" % k)
    POS = z3.Function("upos!%d" % k, z3.IntSort(), z3.IntSort())
    WIT = z3.Function("uwit!%d" % k, z3.IntSort(), z3.IntSort())
    c.add(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    seen = {}
    it = sums.iota(a._shape[0], ("g", 0))
    with c.under(rng(it, a._shape[0])):
        e = lift(f((it,)))
        if isinstance(e, SReal) and not e.plain:
            raise Unsupported("unique with non-finite values")
        c.no_outer(it, _expr(e))

    def uat(idx):
        t = zi(idx[0])
        if z3.is_app(t) and t.decl().eq(POS):
            return f((ix(t.arg(0)),))
        w = WIT(t)
        with c.under(t >= 0, t < m):
            v = f((w,))
        if t.get_id() not in seen:
            old = list(seen.values())
            seen[t.get_id()] = (t, v)
            g = z3.And(t >= 0, t < m)
            with c.bare():
                c.add(z3.And(w >= 0, w < n, POS(w) == t), g)
            if not (z3.is_app(t) and t.decl().eq(WIT)):
                c.register(w)
            for (s, vs) in old:
                c.add(z3.And((t < s) == zb(cmp("<", v, vs).e), (t == s) == zb(cmp("==", v, vs).e)), z3.And(g, s >= 0, s < m))
        return v

    def u(t):
        if z3.is_app(t) and (t.decl().eq(WIT) or t.decl().eq(POS)):
            pass
        if z3.is_app(t) and t.decl().eq(POS):
            return
        g = z3.And(t >= 0, t < n)
        p = POS(t)
        c.add(z3.And(p >= 0, p < m), g)
        if p.get_id() in seen:
            return
        c.keep.append(p)
        with c.under(t >= 0, t < n):
            v = f((ix(t),))
        old = list(seen.values())
        seen[p.get_id()] = (p, v)
        for (s, vs) in old:
            c.add(z3.And((p < s) == zb(cmp("<", v, vs).e), (p == s) == zb(cmp("==", v, vs).e)), z3.And(g, s >= 0, s < m))

    c.universal(u)
    U = SymArray((m,), uat, a.dtype)
    out = [U]
    if return_inverse:

        def inv(idx):
            t = zi(idx[0])
            u(t)
            return SInt(POS(t))

        out.append(SymArray(a._shape, inv, I8))
    if return_counts:

        def cnt(idx):
            r = sums.sum_over(a._shape[0], lambda i: ite(cmp("==", f((i,)), uat(idx)), 1, 0))
            return r

        out.append(SymArray((m,), cnt, I8))
    return out[0] if len(out) == 1 else tuple(out)


def repeat(a, k, axis=None):
    a = asarray(a)
    f = a.snap()
    if isinstance(k, (SymArray, np.ndarray, list)):
        raise Unsupported("repeat with counts")
    k = ix(k)
    if a.is_one():
        v = a.as_scalar()
        return full((dimval(k),), v, a.dtype)
    if axis is None and a.ndim != 1:
        a = a.reshape(-1)
        f = a.snap()
    ax = 0 if axis is None else axis
    if isinstance(a._shape[ax], int) and a._shape[ax] == 1:
        sh = list(a._shape)
        sh[ax] = k

        def g1(idx):
            idx = list(idx)
            idx[ax] = 0
            return f(tuple(idx))

        return SymArray(sh, g1, a.dtype)
    sh = list(a._shape)
    sh[ax] = imul(sh[ax], k)

    def g(idx):
        idx = list(idx)
        i = idx[ax]
        idx[ax] = i // k if isinstance(i, int) and isinstance(k, int) else ix(z3.simplify(zi(i) / zi(k)))
        return f(tuple(idx))

    return SymArray(sh, g, a.dtype)


def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if xs[0].ndim == 0:
        raise VValueError("zero-dimensional arrays cannot be concatenated")
    nd = xs[0].ndim
    if axis < 0:
        axis += nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise VValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not _dim_eq(x._shape[k], xs[0]._shape[k]):
                raise VValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dt = result_dtype(*xs)
    offs, o = [], 0
    for x in xs:
        offs.append(o)
        o = iadd(o, x._shape[axis])
    fs = [x.snap() for x in xs]
    sh = list(xs[0]._shape)
    sh[axis] = o

    def g(idx):
        i = idx[axis]
        r = None
        for j in range(len(fs) - 1, -1, -1):
            J = list(idx)
            J[axis] = isub(i, offs[j])
            if r is not None:
                cnd = ilt(i, offs[j + 1])
                if cnd is False:
                    continue
            v = _conv(fs[j](tuple(J)), dt)
            if r is None:
                # last block: evaluate lazily only if reachable
                if j > 0 and ilt(i, offs[j]) is True:
                    continue
                r = v
            else:
                r = v if cnd is True else ite(cnd, v, r)
        return r

    return SymArray(sh, g, dt)


def column_stack(xs):
    cols = []
    for x in xs:
        x = asarray(x)
        cols.append(x.reshape(-1, 1) if x.ndim == 1 else x)
    return concatenate(cols, 1)


def diff(a):
    a = asarray(a)
    return a[1:] - a[:-1]


def searchsorted(a, v, side="left"):
    """positions in a sorted array"""
    a = asarray(a)
    fa, n = a.snap(), a._shape[0]
    zn = zi(n)
    c = cx()

    def one(x):
        x = lift(x)
        xs = [x.v, x.nan, x.pinf, x.ninf] if isinstance(x, SReal) else [x.e]
        k = c.dep("ss", "I", *xs)
        c.register(k)
        c.add(z3.And(k >= 0, k <= zn))
        lt = (lambda p, q: cmp("<", p, q)) if side == "left" else (lambda p, q: cmp("<=", p, q))
        with c.under(k > 0):
            c.register(z3.simplify(k - 1))
            c.add(zb(lt(fa((ix(z3.simplify(k - 1)),)), x).e))
        with c.under(k < zn):
            c.add(z3.Not(zb(lt(fa((k,)), x).e)))

        def u(t):
            with c.under(t >= 0, t < zn):
                c.add(z3.Implies(t < k, zb(lt(fa((ix(t),)), x).e)))
                c.add(z3.Implies(t >= k, z3.Not(zb(lt(fa((ix(t),)), x).e))))

        c.universal(u)
        return SInt(k)

    if isinstance(v, SymArray):
        fv = v.snap()
        memo = {}

        def g(idx):
            return one(fv(idx))

        return SymArray(v._shape, g, I8)
    return one(v)


def equal_at_generic(a, b):
    """obligation helper: SBool that a and b agree at the generic index"""
    idx, rs = generic(a._shape)
    return idx, rs, same(a.snap()(idx), b.snap()(idx))
