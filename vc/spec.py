"""Contract language, one source for two readings.

A contract is a function h(S).  With SymS it is executed over symbolic inputs
and its `ensure`s become proof obligations; with ConS it runs the real package
on concrete inputs (random ones, or the values of a counter-model).
"""
import copy
import importlib
import math
import os
import traceback
from fractions import Fraction

import numpy as np
import pandas as pd

from . import arr, trans
from .core import *  # noqa
from .core import z3, Ctx

PKG = "cyclic_boosting"
REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, functions, sym, con, trials, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions, self.sym, self.con, self.trials, self.opts = functions, sym, con, trials, opts


def contract(prop, functions=(), sym=True, con=True, trials=150, **opts):
    """functions: names (relative to the package) under contract here"""
    names = [f[len(PKG) + 1 :] if f.startswith(PKG + ".") else f for f in functions]

    def d(fn):
        REGISTRY.setdefault(prop, []).append(Contract(prop, fn.__name__, fn, names, sym, con, trials, opts))
        return fn

    return d


def functions_of(fn):
    """the functions under contract in a registered contract"""
    return next(c.functions for cs in REGISTRY.values() for c in cs if c.fn is fn)


def bounded(prop, functions=(), trials=60, **opts):
    return contract(prop, functions, sym=False, con=True, trials=trials, **opts)


class Skip(Exception):
    """concrete inputs outside the precondition"""


def engine_failure(e):
    """an exception caused by the engine, not by the program"""
    if getattr(e, "_vc", False):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    if last and last.startswith(here) and "/contracts/" not in last:
        return True
    if isinstance(e, AssertionError) and last and last.startswith(os.environ.get("VC_REPO", "/repo")):
        return False
    if isinstance(e, (AttributeError, NameError, NotImplementedError, RecursionError, AssertionError)):
        return True
    if isinstance(e, TypeError):
        return True
    if last and "site-packages" in last:
        return True
    return False


class Base:
    def call(self, f, *a, **k):
        """(exception or None, value)"""
        try:
            return None, f(*a, **k)
        except Exception as e:
            if self.sym and engine_failure(e):
                raise Unsupported("%s: %s" % (type(e).__name__, e))
            return e, None

    def stub(self, obj, name, fn, needed=True):
        """replaces an internal function by its contract; a tree that no longer calls it (or calls it
        differently) is outside this contract: undecided / skipped, never refuted"""
        import inspect

        sig = inspect.signature(fn)
        box = [0]
        self.__dict__.setdefault("stubs", [])
        if not hasattr(obj, name):
            self._outside("%s is gone" % name)

        def wrapped(*a, **k):
            try:
                sig.bind(*a, **k)
            except TypeError as e:
                self._outside("%s: %s" % (name, e))
            box[0] += 1
            return fn(*a, **k)

        if needed:
            self.stubs.append((name, box))
        self.patch(obj, name, wrapped)
        return box

    def _stubs_used(self):
        for n, b in self.__dict__.get("stubs", []):
            if not b[0]:
                self._outside("%s was not called" % n)

    def classof(self, modname, cls):
        return getattr(self.mod(modname), cls)


# ------------------------------------------------------------------ symbolic
class SymS(Base):
    sym = True

    def __init__(self, ctx, loader):
        self.c = ctx
        self.loader = loader
        from .symnp import NPS

        self.np = NPS()
        self.patches = []

    def mod(self, name):
        return self.loader.module(PKG + "." + name if name else PKG)

    def patch(self, obj, name, val):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def unpatch(self):
        for o, n, v in reversed(self.patches):
            setattr(o, n, v)
        self.patches = []

    # inputs
    def int(self, name, lo=None, hi=None):
        e = z3.Int("in_" + name)
        if lo is not None:
            self.c.add(e >= lo_(lo))
        if hi is not None:
            self.c.add(e <= lo_(hi))
        self.c.inputs.append((name, "int", e, lo, hi))
        return SInt(e)

    def dim(self, name, lo=1, hi=None, small=6, big=None):
        v = self.int(name, lo, hi)
        self.c.memo.setdefault("dims", []).append(v.e)
        return v

    def bool(self, name):
        e = z3.Bool("in_" + name)
        self.c.inputs.append((name, "bool", e, None, None))
        return SBool(e)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, kind="finite", near=None):
        e = z3.Real("in_" + name)
        if kind == "any":
            fl = [z3.Bool("in_%s_%s" % (name, k)) for k in ("nan", "pinf", "ninf")]
            self.c.add(excl(fl))
            r = SReal(e, *fl)
        elif kind == "nan":
            fl = [z3.Bool("in_%s_nan" % name)]
            r = SReal(e, fl[0])
        else:
            r = SReal(e)
        self._lims(e, lo, hi, lo_open, hi_open)
        self.c.inputs.append((name, "real", r, lo, hi))
        return r

    def _lims(self, e, lo, hi, lo_open, hi_open):
        c = self.c
        if lo is not None:
            l = as_real(lo).v
            c.add(e > l if lo_open else e >= l)
        if hi is not None:
            h = as_real(hi).v
            c.add(e < h if hi_open else e <= h)

    def array(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, kind="finite", order=None, dtype="f", scale=None, near=None, ints=False):
        """order: None, 'strict', 'nondec'; kind: finite | any | nan"""
        c = self.c
        shape = tuple(arr.ix(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        nd = len(shape)
        isort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]
        F = z3.Function("in_" + name, *([z3.IntSort()] * nd), isort)
        fl = []
        if dtype == "f" and kind in ("any", "nan"):
            names = ("nan", "pinf", "ninf") if kind == "any" else ("nan",)
            fl = [z3.Function("in_%s_%s" % (name, k), *([z3.IntSort()] * nd), z3.BoolSort()) for k in names]
        seen = {}

        def f(idx):
            zs = [arr.zi(i) for i in idx]
            e = F(*zs)
            key = e.get_id()
            if dtype == "b":
                return SBool(e)
            if key not in seen:
                seen[key] = e
                c.keep.append(e)
                hy, c.hyps = c.hyps, []
                try:
                    if dtype == "f":
                        self._lims(e, lo, hi, lo_open, hi_open)
                        if len(fl) == 3:
                            c.add(excl([g(*zs) for g in fl]))
                    else:
                        if lo is not None:
                            c.add(e >= lo_(lo))
                        if hi is not None:
                            c.add(e <= lo_(hi))
                    if ints and dtype == "f":
                        c.add(z3.IsInt(e))
                        c.memo.setdefault("integral", {})[e.get_id()] = e
                finally:
                    c.hyps = hy
            if dtype == "i":
                return SInt(e)
            if fl:
                gs = [g(*zs) for g in fl] + [False] * (3 - len(fl))
                return SReal(e, *gs)
            return SReal(e)

        a = arr.SymArray(shape, f, {"f": "float64", "i": "int64", "b": "bool"}[dtype], name=name)
        if order:
            done = []

            def u(t, order=order):
                for s in list(c.terms):
                    if s.eq(t):
                        continue
                    for x, y in ((s, t), (t, s)):
                        g = z3.And(x >= 0, x < y, y < arr.zi(shape[0]))
                        if bconst(z3.simplify(g)) is False:
                            continue
                        hy, c.hyps = c.hyps, []
                        try:
                            p, q = f((arr.ix(x),)), f((arr.ix(y),))
                            if dtype == "f":
                                c.add(p.v < q.v if order == "strict" else p.v <= q.v, g)
                            else:
                                c.add(p.e < q.e if order == "strict" else p.e <= q.e, g)
                        finally:
                            c.hyps = hy

            c.universal(u)
            c.register(0)
        c.inputs.append((name, "array", (shape, F, fl, dtype, order), lo, hi))
        return a

    def fn(self, name, nargs, lo=None, hi=None, kind="finite", elementwise=True):
        """an arbitrary deterministic real function (elementwise on arrays)"""
        F = z3.Function("in_" + name, *([z3.RealSort()] * (nargs + 1)))
        c = self.c

        def one(*xs):
            xs = [as_real(x) for x in xs]
            e = F(*[x.v for x in xs])
            self._lims(e, lo, hi, False, False)
            return SReal(e)

        def g(*a):
            return arr.elementwise(one, *a, dtype="float64")

        c.inputs.append((name, "fn", None, lo, hi))
        return g

    def choice(self, name, opts):
        k = self.c.choose(name, len(opts))
        self.c.inputs.append((name, "choice", k, None, None))
        return opts[k]

    def frame(self, cols):
        from .frame import SymFrame

        return SymFrame({k: v.copy() for k, v in cols.items()})

    # logic
    def assume(self, cond):
        cond = lift(cond).e
        k = bconst(z3.simplify(cond))
        if k is False:
            raise PathEnd()
        self.c.add(cond)
        self.c.memo["assumed"] = True

    def assume_forall(self, n, fn):
        c = self.c
        n = arr.ix(n)

        def u(t):
            t = arr.ix(t)
            g = arr.rng(t, n)
            if g is False:
                return
            hy, c.hyps = c.hyps, [] if g is True else [g]
            try:
                c.add(lift(fn(SInt(arr.zi(t)))).e)
            finally:
                c.hyps = hy

        c.universal(u)

    def _outside(self, why):
        raise Unsupported("internal interface changed: " + why)

    def ensure(self, label, cond):
        self._stubs_used()
        self.c.ensure(label, cond if isinstance(cond, bool) else lift(cond).e)

    def ensure_forall(self, label, n, fn, lo=0):
        self._stubs_used()
        c = self.c
        ns = n if isinstance(n, tuple) else (n,)
        ns = [arr.ix(x) for x in ns]
        if all(isinstance(x, int) for x in ns):
            tot = 1
            for x in ns:
                tot *= x
            if tot <= 40:
                for J in np.ndindex(*ns):
                    self.ensure(label, fn(*[int(j) for j in J]))
                if tot == 0:
                    self.ensure(label, True)
                return
        sk = [c.fresh("sk", "I") for _ in ns]
        rs = [arr.rng(s, n) for s, n in zip(sk, ns)]
        for s in sk:
            c.register(s)
        with c.under(*rs):
            g = fn(*[SInt(s) for s in sk])
            g = g if isinstance(g, bool) else lift(g).e
        c.ensure(label, bor(bnot(band(*rs)), g))

    def ensure_forall_by(self, label, n, args, prem, concl):
        """for all indices concl(*args(i)), proved through the lemma
        `for all reals v: prem(v) implies concl(v)` and the premises at args(i);
        without that the conclusion is attempted directly"""
        self._stubs_used()
        c = self.c
        ns = n if isinstance(n, tuple) else (n,)
        ns = [arr.ix(x) for x in ns]
        sk = [c.fresh("sk", "I") for _ in ns]
        rs = [arr.rng(s, n) for s, n in zip(sk, ns)]
        for s in sk:
            c.register(s)
        with c.under(*rs):
            a = args(*[SInt(s) for s in sk])
            goal = lift(concl(*a)).e
            alt = [lift(x).e for x in prem(*a)]
        v = [SReal(c.fresh("lem", "R")) for _ in a]
        lem = bor(bnot(band(*[zb(lift(x).e) for x in prem(*v)])), zb(lift(concl(*v)).e))
        inr = band(*rs)
        fin = [as_real(x).finite for x in a]
        tag = [zb(bor(bnot(inr), x)) for x in fin + alt if bconst(x) is not True] + [zb(lem)]
        c.obls.append((label, zb(bor(bnot(inr), goal)), len(c.facts), tag))

    def forall(self, n, fn):
        """as a hypothesis-or-test Boolean"""
        return ~arr.exists(arr.ix(n), lambda j: ~truth(lift(fn(arr.dimval(j)))))

    def exists(self, n, fn):
        return arr.exists(arr.ix(n), lambda j: truth(lift(fn(arr.dimval(j)))))

    def unroll(self):
        """while loops are followed iteration by iteration (the contract bounds their number)"""
        self.c.memo["unroll"] = True

    def invariant(self, site, inv, arrays=(), traces=None, rebinds=None):
        """states the invariant of a loop: inv(state) lists (label, condition) or (label, n, fn) for all indices;
        arrays: written by the loop; traces: ghost functions, the value of an expression after j iterations;
        rebinds: names bound to a new array by every iteration, {name: (shape, kind)}"""
        self.c.memo.setdefault("invs", []).append((site, (inv, arrays, traces or {}, self, rebinds or {})))

    def monotone(self, x, y, z):
        """the valid formula x <= y and 0 <= z imply x*z <= y*z, products expanded"""
        x, y, z = [v.e for v in map(lift, (x, y, z))]
        return SBool(z3.Implies(z3.And(x <= y, z >= 0), z3.simplify(x * z <= y * z, som=True)))

    def loose_mod(self):
        """remainders of reals are known by their range only"""
        self.c.memo["loose_mod"] = True

    def lifted(self, x):
        return lift(x)

    def known(self, cond):
        """whether the condition follows from what is known here"""
        return cond if isinstance(cond, bool) else self.c.valid(lift(cond).e)

    def exp_rule(self, a, b):
        """exp(a) exp(b) = exp(a + b), a fact of real arithmetic"""
        self.c.add(lift(self.exp(a) * self.exp(b)).v == lift(self.exp(lift(a) + lift(b))).v)

    def opaque(self):
        """elementary functions and quotients are arbitrary functions of their arguments"""
        self.c.memo["opaque"] = self.c.memo["abstracted"] = True

    def compare(self, x, y):
        """values at x and y are going to be compared: the sign of their differences is worked out factor by factor"""
        self.c.memo["pair"] = (lift(x).v, lift(y).v)

    def decide(self):
        """case distinctions settled by what is known are not carried along"""
        self.c.memo["decide"] = self.c.memo["abstracted"] = True

    def lemma(self, label, cond):
        """an obligation that may be used afterwards"""
        e = zb(cond if isinstance(cond, bool) else lift(cond).e)
        self._stubs_used()
        self.c.ensure(label, z3.Implies(z3.And(*[zb(h) for h in self.c.hyps]), e) if self.c.hyps else e)
        self.c.add(e)

    def twin(self, split=None):
        """two runs of the same code are compared; returns a function to call before the second one"""
        t = self.c.memo["twin"] = arr.Twin(split)
        return t.rewind

    def pick(self, n, cond, a, b):
        """array of a[i] where cond(i), else b[i]; decided conditions leave no case distinction"""
        fa, fb = arr.asarray(a).snap(), arr.asarray(b).snap()

        def f(J):
            d = zb(truth(lift(cond(arr.dimval(J[0])))).e)
            # only a hypothesis that is the condition itself: no solver call
            for h in self.c.hyps:
                h = z3.simplify(zb(h))
                if h.eq(z3.simplify(d)):
                    return fa(J)
                if h.eq(z3.simplify(z3.Not(d))):
                    return fb(J)
            return ite(SBool(d), fa(J), fb(J))

        return arr.SymArray((arr.ix(n),), f, arr.asarray(a).dtype)

    def cover(self, label):
        self.c.covers.append((label, len(self.c.facts)))

    def hint(self, *xs):
        """index terms of interest"""
        for x in xs:
            self.c.register(arr.zi(arr.ix(x)))

    # values
    def at(self, a, *idx):
        if isinstance(a, (list, tuple)):
            return a[idx[0]]
        if not hasattr(a, "at"):
            a = arr.asarray(a)
        return a.at(*idx)

    def len(self, a):
        from .symnp import b_len

        return b_len(a)

    def copy(self, a):
        return a.copy()

    def values(self, a):
        return a.values if getattr(a, "_sym_kind", "") == "series" else a

    def and_(self, *xs):
        return SBool(band(*[zb(lift(x).e) for x in xs]))

    def or_(self, *xs):
        return SBool(bor(*[zb(lift(x).e) for x in xs]))

    def not_(self, x):
        return ~lift(x)

    def implies(self, a, b):
        a = lift(a).e
        if callable(b):
            if bconst(z3.simplify(zb(a))) is False:
                return SBool(True)
            with self.c.under(a):
                b = b()
        return SBool(bor(bnot(a), lift(b).e))

    def iff(self, a, b):
        return SBool(zb(lift(a).e) == zb(lift(b).e))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b, rtol=None, atol=None):
        return same(_sc(a), _sc(b))

    def close(self, a, b, tol):
        return cmp("<=", sabs(arith("-", _sc(a), _sc(b))), tol)

    def ne(self, a, b):
        return ~same(_sc(a), _sc(b))

    def le(self, a, b, rtol=None, atol=None):
        return cmp("<=", a, b)

    def lt(self, a, b):
        return cmp("<", a, b)

    def ge(self, a, b, rtol=None, atol=None):
        return cmp(">=", a, b)

    def gt(self, a, b):
        return cmp(">", a, b)

    def isnan(self, a):
        return isnan(a)

    def isfinite(self, a):
        return isfinite(a)

    def sum(self, n, fn):
        from . import sums

        return sums.sum_over(arr.ix(n), lambda i: fn(arr.dimval(i)))

    def shape(self, a):
        return a.shape

    def exp(self, x):
        return trans.exp(lift(x))

    def log(self, x):
        return trans.log(lift(x))

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = smax(r, x)
        return r

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = smin(r, x)
        return r

    def abs(self, a):
        return sabs(a)

    def integer(self, x):
        """an integral real as an integer"""
        x = lift(x)
        return x if isinstance(x, SInt) else SInt(int_expr(x.v) if int_expr(x.v) is not None else z3.ToInt(x.v))

    def uf(self, name, *args):
        """uninterpreted real function of a specification"""
        F = z3.Function("spec_" + name, *([z3.RealSort()] * (len(args) + 1)))
        return SReal(F(*[as_real(a).v for a in args]))


def _sc(a):
    return a.as_scalar() if isinstance(a, arr.SymArray) else a


def lo_(x):
    return x.e if isinstance(x, Sym) else x


def excl(fl):
    return z3.And(*[z3.Not(z3.And(a, b)) for i, a in enumerate(fl) for b in fl[:i]])


# ------------------------------------------------------------------ concrete
class Ns:
    def __init__(self, d):
        self.__dict__.update(d)


class ConS(Base):
    sym = False

    def __init__(self, seed=0, values=None, maxdim=6):
        self.rng = np.random.default_rng(seed)
        self.given = values or {}
        self.used = {}
        self.failures = []
        self.checked = 0
        self.np = np
        self.patches = []
        self.maxdim = maxdim

    def mod(self, name):
        return importlib.import_module(PKG + "." + name if name else PKG)

    def patch(self, obj, name, val):
        self.patches.append((obj, name, getattr(obj, name), name in getattr(obj, "__dict__", {})))
        setattr(obj, name, val)

    def unpatch(self):
        for o, n, v, own in reversed(self.patches):
            if own:
                setattr(o, n, v)
            else:
                try:
                    delattr(o, n)
                except AttributeError:
                    setattr(o, n, v)
        self.patches = []

    def twin(self, split=None):
        return lambda: None

    def invariant(self, site, inv, arrays=(), traces=None, rebinds=None):
        pass

    def monotone(self, x, y, z):
        return True

    def loose_mod(self):
        pass

    def decide(self):
        pass

    def compare(self, x, y):
        pass

    def opaque(self):
        pass

    def exp_rule(self, a, b):
        pass

    def lemma(self, label, cond):
        self.ensure(label, cond)

    def pick(self, n, cond, a, b):
        return np.array([a[i] if cond(i) else b[i] for i in range(n)], dtype=np.asarray(b).dtype)

    def _rec(self, name, v):
        self.used[name] = v.copy() if isinstance(v, np.ndarray) else v
        return v

    def int(self, name, lo=None, hi=None):
        if name in self.given:
            v = int(self.given[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Skip()
            return self._rec(name, v)
        if lo is None and hi is None:
            lo, hi = -5, 5
        elif hi is None:
            hi = lo + 5
        elif lo is None:
            lo = hi - 5
        if hi < lo:
            raise Skip()
        return self._rec(name, int(self.rng.integers(lo, hi + 1)))

    def dim(self, name, lo=1, hi=None, small=None, big=None):
        if name in self.given:
            return self.int(name, lo, hi)
        if big and self.rng.random() < 0.04:
            return self._rec(name, int(self.rng.integers(lo, big + 1)))
        h = max(lo, small or self.maxdim)
        if hi is not None:
            h = min(h, hi)
        return self._rec(name, int(self.rng.integers(lo, h + 1)))

    def bool(self, name):
        if name in self.given:
            return self._rec(name, bool(self.given[name]))
        return self._rec(name, bool(self.rng.integers(0, 2)))

    def _gen(self, size, lo, hi, lo_open, hi_open, kind, scale=None, near=None, ints=False):
        r = self.rng
        mode = r.integers(0, 6)
        L = -np.inf if lo is None else float(lo)
        H = np.inf if hi is None else float(hi)
        sc = scale or [1.0, 1.0, 10.0, 0.1, 3.0, 1000.0][r.integers(0, 6)]
        if np.isfinite(L) and np.isfinite(H):
            v = r.uniform(L, H, size)
            if mode == 1:
                v = r.choice([L, H, (L + H) / 2], size)
        elif np.isfinite(L):
            v = L + np.abs(r.normal(0, sc, size))
            if mode == 1:
                v = L + r.integers(0, 4, size).astype(float)
        elif np.isfinite(H):
            v = H - np.abs(r.normal(0, sc, size))
            if mode == 1:
                v = H - r.integers(0, 4, size).astype(float)
        else:
            v = r.normal(0, sc, size)
            if mode == 1:
                v = r.integers(-3, 4, size).astype(float)
            if mode == 2:
                v = np.abs(v)
        v = np.array(v, dtype=float)
        if mode == 3 and v.size:
            v = np.full(size, v.flat[0])
        if mode == 4:
            m = r.random(size) < 0.4
            z = min(max(0.0, L), H)
            v = np.where(m, z, v)
        if ints:
            v = np.round(v)
        if lo_open and np.isfinite(L):
            v = np.where(v <= L, L + (min(1e-3, (H - L) / 4) if np.isfinite(H) else 1e-3), v)
        if hi_open and np.isfinite(H):
            v = np.where(v >= H, H - (min(1e-3, (H - L) / 4) if np.isfinite(L) else 1e-3), v)
        v = np.clip(v, L, H)
        if kind in ("any", "nan") and r.random() < 0.6:
            m = r.random(size) < 0.25
            bad = r.choice([np.nan, np.inf, -np.inf] if kind == "any" else [np.nan], size)
            v = np.where(m, bad, v)
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, kind="finite", near=None):
        if name in self.given:
            v = float(self.given[name])
            if np.isfinite(v):
                if (lo is not None and (v < lo or (lo_open and v <= lo))) or (hi is not None and (v > hi or (hi_open and v >= hi))):
                    raise Skip()
            return self._rec(name, v)
        return self._rec(name, float(self._gen((), lo, hi, lo_open, hi_open, kind)))

    def array(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, kind="finite", order=None, dtype="f", scale=None, near=None, ints=False):
        shape = tuple(int(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        if name in self.given:
            g = np.array(self.given[name], dtype={"f": float, "i": np.int64, "b": bool}[dtype])
            out = np.zeros(shape, dtype=g.dtype)
            if g.shape == shape:
                out = g.copy()
            else:
                raise Skip()
            if dtype != "b":
                with np.errstate(invalid="ignore"):
                    if lo is not None:
                        out = np.where(out < lo, lo, out)
                        if lo_open:
                            out = np.where(out <= lo, lo + 1e-3, out)
                    if hi is not None:
                        out = np.where(out > hi, hi, out)
                out = out.astype(g.dtype)
        elif dtype == "f":
            out = self._gen(shape, lo, hi, lo_open, hi_open, kind, scale, near, ints)
        elif dtype == "b":
            out = self.rng.random(shape) < self.rng.random()
        else:
            l = -5 if lo is None else int(lo)
            h = l + 5 if hi is None else int(hi)
            if h < l:
                if 0 in shape:
                    h = l
                else:
                    raise Skip()
            out = self.rng.integers(l, h + 1, shape)
            if self.rng.random() < 0.15:
                out = np.full(shape, out.flat[0] if out.size else l)
        if order and len(shape) == 1:
            out = np.sort(out)
            if order == "strict":
                if dtype == "f":
                    for i in range(1, len(out)):
                        if not out[i] > out[i - 1]:
                            out[i] = out[i - 1] + 0.5
                    if hi is not None and len(out) and out[-1] > hi:
                        raise Skip()
                elif len(np.unique(out)) != len(out):
                    raise Skip()
        return self._rec(name, out)

    def fn(self, name, nargs, lo=None, hi=None, kind="finite", elementwise=True):
        seed = int(self.given.get(name, self.rng.integers(0, 2**31)))
        self._rec(name, seed)
        g = np.random.default_rng(seed)
        co = g.normal(0, 1, nargs)
        ph = g.uniform(0, 6)
        l = -3.0 if lo is None else lo
        h = l + 6.0 if hi is None else hi

        def f(*xs):
            t = sum(k * np.asarray(x, dtype=float) * 1.7 for k, x in zip(co, xs)) + ph
            return l + (h - l) * (0.5 + 0.5 * np.sin(t))

        return f

    def choice(self, name, opts):
        if name in self.given:
            k = int(self.given[name])
        else:
            k = int(self.rng.integers(0, len(opts)))
        self.used[name] = k
        return opts[k]

    def frame(self, cols):
        return pd.DataFrame({k: np.array(v) for k, v in cols.items()})

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def assume_forall(self, n, fn):
        for i in range(int(n)):
            if not bool(fn(i)):
                raise Skip()

    def _outside(self, why):
        raise Skip()

    def ensure(self, label, cond):
        self._stubs_used()
        self.checked += 1
        if not bool(cond):
            self.failures.append(label)

    def ensure_forall_by(self, label, n, args, prem, concl):
        self.ensure_forall(label, n, lambda *i: concl(*args(*i)))

    def ensure_forall(self, label, n, fn, lo=0):
        self._stubs_used()
        self.checked += 1
        ns = n if isinstance(n, tuple) else (n,)
        for J in np.ndindex(*[int(x) for x in ns]):
            if not bool(fn(*[int(j) for j in J])):
                self.failures.append("%s [at %s]" % (label, J if len(J) > 1 else J[0]))
                return

    def forall(self, n, fn):
        return all(bool(fn(i)) for i in range(int(n)))

    def exists(self, n, fn):
        return any(bool(fn(i)) for i in range(int(n)))

    def unroll(self):
        pass

    def cover(self, label):
        pass

    def hint(self, *xs):
        pass

    def at(self, a, *idx):
        if isinstance(a, (list, tuple)):
            return a[idx[0]]
        a = np.asarray(a)
        return a[tuple(int(i) for i in idx)]

    def len(self, a):
        return len(a)

    def copy(self, a):
        return copy.deepcopy(a)

    def values(self, a):
        return np.asarray(a)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def eq(self, a, b, rtol=1e-6, atol=1e-9):
        a, b = _f(a), _f(b)
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
        if np.isinf(a) or np.isinf(b):
            return bool(a == b)
        return bool(abs(a - b) <= atol + rtol * max(abs(a), abs(b)))

    def close(self, a, b, tol):
        return bool(abs(_f(a) - _f(b)) <= tol)

    def ne(self, a, b):
        return not self.eq(a, b)

    def le(self, a, b, rtol=1e-9, atol=1e-9):
        a, b = _f(a), _f(b)
        if np.isinf(a) or np.isinf(b):
            return bool(a <= b)
        return bool(a <= b + atol + rtol * max(abs(a), abs(b)))

    def lt(self, a, b):
        return bool(a < b)

    def ge(self, a, b, rtol=1e-9, atol=1e-9):
        return self.le(b, a, rtol, atol)

    def gt(self, a, b):
        return bool(a > b)

    def isnan(self, a):
        return bool(np.isnan(a))

    def isfinite(self, a):
        return bool(np.isfinite(a))

    def sum(self, n, fn):
        t = 0.0
        for i in range(int(n)):
            t = t + fn(i)
        return t

    def shape(self, a):
        return a.shape

    def integer(self, x):
        return int(x)

    def exp(self, x):
        with np.errstate(all="ignore"):
            return float(np.exp(x))

    def log(self, x):
        with np.errstate(all="ignore"):
            return float(np.log(x))

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def abs(self, a):
        return abs(a)


def _f(a):
    if isinstance(a, np.ndarray):
        a = a.reshape(-1)[0]
    return float(a)


# --------------------------------------------------------- model -> values
def model_values(ctx, m, cap=40):
    """concrete inputs of a model, None when a dimension is too large"""

    def num(e):
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            v = v.approx(20)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return 0.0

    def bl(e):
        if isinstance(e, bool):
            return e
        return z3.is_true(m.eval(e, model_completion=True))

    out = {}
    for name, kind, obj, lo, hi in ctx.inputs:
        if kind == "int":
            out[name] = num(obj)
        elif kind == "bool":
            out[name] = bl(obj)
        elif kind == "real":
            out[name] = float("nan") if bl(obj.nan) else float("inf") if bl(obj.pinf) else float("-inf") if bl(obj.ninf) else num(obj.v)
        elif kind == "choice":
            out[name] = obj
        elif kind == "array":
            shape, F, fl, dtype, order = obj
            sh = [d if isinstance(d, int) else num(d) for d in shape]
            if any(d < 0 or d > cap for d in sh) or int(np.prod(sh)) > 400:
                return None
            a = np.zeros(sh, dtype={"f": float, "i": np.int64, "b": bool}[dtype])
            for J in np.ndindex(*sh):
                zs = [z3.IntVal(int(j)) for j in J]
                if dtype == "b":
                    a[J] = bl(F(*zs))
                    continue
                v = num(F(*zs))
                for g, sp in zip(fl, (np.nan, np.inf, -np.inf)):
                    if bl(g(*zs)):
                        v = sp
                a[J] = v
            out[name] = a
    return out
