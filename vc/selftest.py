"""setup: the tools are there, the engine agrees with the real libraries, and it does not
accept wrong programs.

* `agree`: every expression of OPS is evaluated by the real library on random values and by the
  shims on symbolic inputs that are assumed to have these values.  The real result must be
  consistent with everything the shims state about theirs (an unsound shim excludes it).
* `judge`: small programs with true and false statements about them; a false one must never be
  proved, a true one must be.
"""
import glob
import multiprocessing as mp
import os
import sys
import time

# expression | inputs: a b finite floats, z any floats, g positive floats, i bin numbers below 3, p mask,
# A 3-column matrix, B small matrix of integers, s float, k int, o sorted floats
OPS = """
a + b; a - b; a * b; a / b; a ** 2; a / 0.0; -a; abs(a); 1.0 / z; z + 1; z * 0.0; z - z; z * z; z / z; z // 1.0
a % 2.0; i % 2; i // 2; -i; i - 5; i * 2.5; a // 0.5
a < b; a <= b; a == b; a != b; z < 0; z >= 0; z == z; z != z; (z > 0) & (a > 0); (z > 0) | p; ~p; p ^ (a > 0)
np.exp(a); np.log(g); np.sqrt(g); np.sinh(a); np.cosh(a); np.arcsinh(a); np.tanh(a); np.expm1(a); np.log1p(g); np.exp(z); np.log(z); np.sqrt(z); np.log(a)
np.exp(np.log(g)); np.log(np.exp(a)); np.exp(a + b); np.exp(-a); np.arcsinh(np.sinh(a)); np.arccosh(g + 1.0); np.arctanh(np.tanh(a)); np.sinh(z); np.tanh(z); np.power(g, a); g ** 0.5; g ** -1; g ** a; np.power(a, 2); z ** 2
np.floor(a); np.ceil(a); np.rint(a); np.round(a); np.floor(z); np.trunc(a); a.astype(int); z.astype(np.float64); i.astype(float); p.astype(int); (a > 0) * 1.0
np.sign(a); np.abs(z); np.square(a); np.isnan(z); np.isfinite(z); np.isinf(z); np.isposinf(z); np.isneginf(z); np.logical_not(p); np.logical_and(p, a > 0); np.logical_or(p, a > 0); np.reciprocal(g)
np.maximum(a, b); np.minimum(a, b); np.maximum(z, a); np.minimum(z, 0.0); np.fmax(z, a); np.fmin(z, a); np.clip(a, -1, 1); np.clip(z, -1, 1); np.clip(a, None, 0.5); np.clip(a, b, 3.0); a.clip(0, 1); a.clip(min=0)
np.sum(a); a.sum(); np.sum(p); a[p].sum(); np.sum(a * b); np.sum(z); np.nansum(z); np.mean(a); a.mean(); np.average(a, weights=g); np.std(a); np.var(a); np.sum(A, axis=0); np.sum(A, axis=1); A.sum(axis=1); A.mean(axis=0); np.sum(A); np.sum(A, axis=1, keepdims=True); np.sum(a, where=p); np.std(a, ddof=1); np.mean(a, where=p); A.sum()
np.cumsum(g[np.argsort(a)]); np.cumsum(g[p]); g[np.cumsum(g) >= g.sum() / 2][0]; a[np.argsort(a)][np.cumsum(g[np.argsort(a)]) >= 0.3 * g.sum()][0]; np.cumsum(a); np.cumsum(g) / g.sum(); np.cumsum(A, axis=0); np.cumsum(A); np.nancumsum(z); a.cumsum()
np.any(p); np.all(p); p.any(); p.all(); (A > 0).any(axis=1); (A > 0).all(axis=1); np.any(A > 1, axis=0); np.isnan(z).any(); np.all(np.isfinite(z)); np.count_nonzero(p); np.count_nonzero(a > 0)
np.max(a); a.min(); A.max(axis=0); A.min(axis=1); np.max(z); np.nanmax(np.r_[z, 0.0]); np.nanmin(np.r_[z, 0.0]); np.argmax(a); np.argmin(a); np.argmax(p); A.argmin(axis=0); A.argmax(axis=1); np.max(A); i.max(); np.max(np.abs(a - b))
a[p]; a[~p]; A[p]; A[:, 1]; A[1:, 0]; a[::-1]; a[1:]; a[:-1]; a[-1]; a[0]; a[i.clip(0, len(a) - 1)]; A[0]; A[:, ::-1]; a[:, None] * np.arange(3); A[:, [2, 0]]; A[p, 1]; a[np.argsort(a)]; A.T; A.T[1]; a[None, :]; A[..., 0]; A[-1, -1]; a[1:-1]; a[2:]
np.where(p, a, b); np.where(a > 0, a, 0.0); np.where(p, 1, 0); np.where(np.isnan(z), -1.0, z); np.where(p)[0]; np.nonzero(p)[0]; np.where(p[:, None], A, 0.0)
np.bincount(i, minlength=4); np.bincount(i, weights=a, minlength=3); np.bincount(i); np.bincount(i, weights=a); np.bincount(i[p], weights=a[p], minlength=3); np.bincount(i, weights=p, minlength=3)
np.sort(a); np.argsort(g); np.sort(i); np.unique(i); np.unique(a); np.unique(i, return_counts=True); np.unique(i, return_inverse=True); np.unique(a, return_inverse=True)[0][np.unique(a, return_inverse=True)[1]]; a[np.argsort(a)][0]; np.sort(np.r_[a, b]); np.argsort(np.argsort(a)); np.sort(A); np.sort(z); np.sort(np.array([s, k, 0.5])); np.argsort(np.array([s, k + 4.0, -3.0])); np.unique(z); z[np.argsort(z)]
np.repeat(a, 2); np.repeat(2.0, 3); np.concatenate([a, b]); np.r_[a, 1.0, b]; np.c_[a, b]; np.hstack([a, b]); np.vstack([a, b]); np.append(a, 1.0); np.stack([a, b]); np.column_stack([a, b]); np.column_stack((A, b)); np.diff(a); np.diff(a, n=2); np.diff(a).sum(); np.hstack([A, A]); np.tile(a, 2); np.concatenate([A, A], axis=1); np.concatenate([A, A], axis=0)
np.searchsorted(o, b); np.searchsorted(o, b, side="right"); np.searchsorted(o, s); np.digitize(b, o); np.digitize(b, o, right=True); np.searchsorted(o, o); np.interp(b, o, a)
np.dot(a, b); a.dot(b); A.dot(np.array([1.0, 2.0, 3.0])); A @ np.ones(3); np.outer(a, b); np.einsum("i,i->i", a, b); np.einsum("ij,j->i", A, np.arange(3.0)); np.dot(A.T, a); a @ b
np.zeros(len(a)) + a; np.ones_like(a); np.zeros_like(i); np.full(len(a), 2.5); np.full_like(a, 1); np.empty_like(a) * 0 + 1 if False else a; np.arange(len(a)) * 1.0; np.arange(1, 4); np.arange(3) + i[:1]; np.linspace(0, 1, 5) * s; np.linspace(s, s + 1, 4); np.eye(3) if False else A; np.arange(len(a), 0, -1); np.zeros((len(a), 2)); np.logspace(-1, 1, 3) * s
a.reshape(-1, 1); A.reshape(-1); A.ravel(); a.reshape(1, -1); np.squeeze(a[:, None]); np.squeeze(A[:1]); A.T.ravel(); a[:, np.newaxis] - a; np.expand_dims(a, 1); np.broadcast_to(a, (2, len(a))); A.shape[0] * s; len(A) + k; a.size * 1.0; A.size; A.ndim; A.swapaxes(0, 1); np.transpose(A); A.T.reshape(-1); A.reshape(3, -1); A.reshape(len(A), 1, 3).sum(axis=1)
np.isclose(a, b); np.allclose(a, a + 1e-12); np.allclose(a, b); np.array_equal(a, b); np.in1d(i, [0, 2]); np.isin(i, [1]); np.nan_to_num(z); np.nan_to_num(z, nan=1.0); np.nan_to_num(z, posinf=7.0, neginf=-7.0); np.isnan(z).sum(); np.array([s, 2 * s]); np.array([a, b]); np.asarray(a, dtype=int) if False else a; np.round(a, 1); np.convolve(o, np.ones(2), mode="valid"); np.convolve(a, [1.0, 2.0])
s + k; s * s; s / 2; k // 2; k % 3; k / 2; -s; abs(s); s ** 2; max(s, 0.5); min(s, k); round(s); int(s); float(k); s if s > 0 else -s; k if k > 2 else 0; divmod(k, 2)[0]; bool(k) * 1; math.exp(s); math.log(abs(s) + 1); math.sqrt(s * s); math.floor(s); math.ceil(s); math.isnan(s); (k & 3); (k | 4); k << 1; s // 1; s % 1; sum([s, k, 1]); k ** 2; 2.0 ** k; 2 ** k; np.float64(s) * 2; np.log(abs(s) + 0.5)
wr(a, p, 1.0); wr(a, i[:1], 5.0); wr(a, slice(1, None), 0.0); wr(A, (slice(None), 1), 2.0); wr(A, (p, 0), -1.0); wr(A, p, 0.0); add_at(a, i); wr(a, p, b[p]); wr(A, (0,), 9.0); aug(a, b); view(A)
ne("a * b + exp(a)"); ne("where(a > 0, a, b)"); ne("(a - b) ** 2 / g"); ne("log(g) * a"); ne("sum(a)"); ne("(a > 0) & (b > 0)"); ne("abs(a)"); ne("sqrt(g)")
fr({"x": a, "y": b}).sort_values("x")["x"].values; fr({"x": a, "y": b}).sort_values("x").y.sum(); fr({"x": a, "y": b}).groupby(["x"]).agg({"y": "sum"}).reset_index()["y"].values; fr({"x": a, "y": g}).groupby("x").sum().reset_index()["x"].values; fr({"x": a, "y": b}).x[p].iloc[0]; fr({"x": a, "y": b}).loc[p]["y"].values; fr({"x": a, "y": b})["x"].values + 1; fr({"x": a, "y": z})["y"].isnull().values; fr({"x": a, "y": b}).values; fr({"x": a, "y": b})[["y"]].values; setc(fr({"x": a}), "y", b); setc(fr({"x": a}), "x", 1.0); len(fr({"x": a})); fr({"x": z})["x"].fillna(0.0).values; fr({"x": a, "y": b}).iloc[:, 1].values; fr({"x": a, "y": b})[p]["y"].values; fr({"x": a, "y": b}).drop("x", axis=1).values; fr({"x": i})["x"].astype(float).values; ("x" in fr({"x": a}).columns) * 1; fr({"x": a})["x"][p].values; fr({"x": a}).shape[0]; fr({"x": a}).copy()["x"].values; fr({"x": a, "y": b})["y"].sum(); fr({"x": a, "y": b})["y"].mean(); (fr({"x": a})["x"] > 0).values; fr({"x": a, "y": b})["x"].iloc[0]; fr({"x": a})["x"].max()
sp.gammaincinv(g, 0.5); sp.erfinv(np.tanh(a)); st.norm.ppf(np.array([0.1, 0.5])) * s; st.norm.cdf(a); st.norm.cdf(st.norm.ppf(np.tanh(g) * 0.5)); st.beta.ppf(0.5, g, g + 1); st.logistic.cdf(a); st.logistic.ppf(np.tanh(g) * 0.9); st.norm.pdf(a); sp.gammaln(g); sp.expit(a)
"""


def expressions():
    for line in OPS.strip().split("\n"):
        for e in line.split(";"):
            e = e.strip()
            if e:
                yield e


def helpers(np_, pd_, numexpr):
    def wr(a, k, v):
        a = a.copy()
        a[k] = v
        return a

    def add_at(a, i):
        a = a.copy()
        a[1:] += 1.0
        a *= 2.0
        a[0] -= i[0]
        return a

    def aug(a, b):
        c = a
        c = c.copy()
        d = c
        d += b
        return c

    def view(A):
        A = A.copy()
        v = A[:, 1]
        v[:] = 7.0
        w = A.T
        w[0] = 3.0
        return A

    def fr(d):
        return pd_.DataFrame(d)

    def setc(f, k, v):
        f[k] = v
        return f[k].values

    return dict(wr=wr, add_at=add_at, aug=aug, view=view, fr=fr, setc=setc)


def values(seed):
    import numpy as np

    r = np.random.default_rng(seed)
    n = int(r.integers(1, 4))
    grid = np.array([-2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0])
    v = dict(a=r.choice(grid, n), b=r.choice(grid, n), g=r.choice([0.25, 0.5, 1.0, 2.0, 5.0], n), z=r.choice([np.nan, np.inf, -np.inf, 0.0, -1.0, 0.5, 2.0], n))
    v.update(i=r.integers(0, 3, n), p=r.random(n) < 0.5, A=r.choice(grid, (n, 3)), o=np.sort(r.choice(grid, n)), s=float(r.choice(grid)), k=int(r.integers(0, 6)))
    return n, v


def agree_one(job):
    """-> (expression, status): exact | admitted | excluded | no answer | skipped"""
    expr, seed = job
    import math
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np
    import numexpr
    import pandas as pd
    import scipy.special
    import scipy.stats

    from . import arr, explore, spec
    from .core import SBool, SInt, SReal, z3
    from .loader import Loader

    n, v = values(seed)
    env = dict(helpers(np, pd, numexpr), np=np, math=math, sp=scipy.special, st=scipy.stats, ne=lambda e: numexpr.evaluate(e, local_dict=v), **v)
    try:
        with np.errstate(all="ignore"):
            want = eval(expr, env)
    except Exception as e:
        return expr, "skipped", "%s" % e

    def exact(x):
        from fractions import Fraction

        f = Fraction(float(x))
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator))

    def same(got, w, tol):
        """formula: the symbolic scalar has the real value"""
        from .core import lift

        got = lift(got)
        if isinstance(got, SBool):
            return got.e == z3.BoolVal(bool(w)) if not isinstance(got.e, bool) else z3.BoolVal(got.e == bool(w))
        if isinstance(got, SInt):
            return arr.zi(got.e) == int(w) if float(w) == int(w) else z3.BoolVal(False)
        fl = [f if not isinstance(f, bool) else z3.BoolVal(f) for f in (got.nan, got.pinf, got.ninf)]
        w = float(w)
        c = [fl[0] == z3.BoolVal(math.isnan(w)), fl[1] == z3.BoolVal(w == math.inf), fl[2] == z3.BoolVal(w == -math.inf)]
        if math.isfinite(w):
            e = got.v if z3.is_expr(got.v) else z3.RealVal(str(got.v))
            d = tol * max(1.0, abs(w))
            c += [e <= exact(w) + exact(d), e >= exact(w) - exact(d)]
        return z3.And(*c)

    def h(S):
        c = S.c
        N = S.dim("n", 1)
        c.add(N.e == n)
        sv = {}
        for q, x in v.items():
            if isinstance(x, np.ndarray):
                shape = (N,) + tuple(x.shape[1:])
                kind = {"f": "f", "i": "i", "b": "b"}[x.dtype.kind]
                sv[q] = S.array(q, shape, kind="any" if q == "z" else "finite", dtype=kind, order="nondec" if q == "o" else None)
                for J in np.ndindex(*x.shape):
                    c.add(same(sv[q].at(*J), x[J], 0.0))
            elif isinstance(x, float):
                sv[q] = S.real(q)
                c.add(sv[q].v == exact(x))
            else:
                sv[q] = S.int(q, 0)
                c.add(sv[q].e == x)
        for q in range(n):
            c.register(z3.IntVal(q))
        L = S.loader
        e2 = dict(helpers(L.lib("numpy"), L.lib("pandas"), None), np=S.np, math=L.lib("math"), sp=L.lib("scipy.special"), st=L.lib("scipy.stats"), **sv)
        ne = L.lib("numexpr")
        e2["ne"] = lambda t: ne.evaluate(t, local_dict=sv)
        e2["__builtins__"] = L.builtins
        got = eval(expr, e2)
        conds = []

        def walk(g, w):
            if isinstance(w, tuple):
                for x, y in zip(g, w):
                    walk(x, y)
            elif isinstance(w, np.ndarray) or (hasattr(g, "_shape") and np.ndim(w) == 0 and getattr(g, "ndim", 0) == 0):
                w = np.asarray(w)
                if not hasattr(g, "at"):
                    g = arr.asarray(g)
                if g.ndim != w.ndim:
                    conds.append(z3.BoolVal(False))
                    return
                for d, x in zip(g._shape, w.shape):
                    conds.append(arr.zi(d) == x)
                for J in np.ndindex(*w.shape):
                    conds.append(same(g.at(*J), w[J], 1e-9))
            else:
                if hasattr(g, "as_scalar"):
                    g = g.as_scalar()
                conds.append(same(g, w, 1e-9))

        walk(got, want)
        goal = z3.And(*conds) if conds else z3.BoolVal(True)
        S.ensure("same", SBool(goal))
        c.add(goal)

    con = spec.Contract("T", "t", h, [], True, False, 0, {})
    spec.ConS_skip = True
    explore.attempt_replay = lambda *a, **k: None
    r = explore.explore(con, budget_s=20, ob_ms=1500, loader=Loader())
    if r["undecided"] and not r["covered"]:
        return expr, "no answer", r["undecided"][0][:150]
    if not r["covered"]:
        return expr, "excluded", "inputs %s, real result %r" % ({q: getattr(x, "tolist", lambda: x)() for q, x in v.items() if q in expr}, want)
    ok = all(o[1] == "proved" for o in r["obligations"]) and r["obligations"]
    return expr, "exact" if ok else "admitted", ""


# ------------------------------------------------------------------ programs
PROGRAMS = '''
import numpy as np
import numexpr


def total(a):
    t = 0.0
    for x in a:
        t += x
    return t


def total_wrong(a):
    t = 0.0
    for x in a[1:]:
        t += x
    return t


def positive_part(a):
    r = np.zeros(len(a))
    for i in range(len(a)):
        if a[i] > 0:
            r[i] = a[i]
    return r


def shifted(a):
    r = np.zeros(len(a))
    r[1:] = a[:-1]
    return r


def histogram(l, w, m):
    h = np.zeros(m)
    for i in range(len(l)):
        h[l[i]] += w[i]
    return h


def histogram_late(l, w, m):
    h = np.zeros(m)
    for i in range(1, len(l)):
        h[l[i]] += w[i]
    return h


def count_down(k):
    c = 0
    while k > 0:
        k -= 1
        c += 1
    return c


def centred(a, w):
    return a - np.sum(a * w) / np.sum(w)


def shares(w):
    return w / np.sum(w)


def clip_in_place(a):
    a[a > 1] = 1
    return a


def guarded(a, b):
    if b == 0:
        return 0.0
    return a / b


def unguarded(a, b):
    return a / b


def nested(l, a):
    m = np.bincount(l, weights=a, minlength=3) / np.bincount(l, minlength=3)
    return np.sum(a - m[l])


def selected(a, p):
    return np.sum(np.where(p, a, 0.0)) - np.sum(a[p])


def selected_wrong(a, p):
    return np.sum(np.where(p, a, 0.0)) - np.sum(a[~p])


def by_row(A):
    return np.sum(A) - np.sum(np.sum(A, axis=1))


def smallest(a):
    return a[np.argmin(a)]


def early(a, x):
    i = 0
    while i < len(a) and a[i] < x:
        i += 1
    return i
'''


def programs():
    """(name, statement about it, holds)"""
    import numpy as np  # noqa

    T = []

    def true(f):
        T.append((f.__name__, f, True))

    def false(f):
        T.append((f.__name__, f, False))

    def arr_(S, name="a", n=None, **k):
        n = S.dim("n", 1) if n is None else n
        return n, S.array(name, n, **k)

    @true
    def loop_sum(S, m):
        n, a = arr_(S)
        S.ensure("t", S.eq(m.total(a), S.sum(n, lambda i: S.at(a, i))))

    @false
    def loop_sum_wrong(S, m):
        n, a = arr_(S)
        S.ensure("t", S.eq(m.total_wrong(a), S.sum(n, lambda i: S.at(a, i))))

    @true
    def pos(S, m):
        n, a = arr_(S)
        r = m.positive_part(a)
        S.ensure_forall("t", n, lambda i: S.and_(S.ge(S.at(r, i), 0), S.ge(S.at(r, i), S.at(a, i))))

    @false
    def pos_wrong(S, m):
        n, a = arr_(S)
        r = m.positive_part(a)
        S.ensure_forall("t", n, lambda i: S.gt(S.at(r, i), 0))

    @true
    def shift(S, m):
        n, a = arr_(S)
        r = m.shifted(a)
        S.ensure_forall("t", n, lambda i: S.implies(i > 0, lambda: S.eq(S.at(r, i), S.at(a, i - 1))))

    @false
    def shift_wrong(S, m):
        n, a = arr_(S)
        r = m.shifted(a)
        S.ensure_forall("t", n, lambda i: S.implies(i > 0, lambda: S.eq(S.at(r, i), S.at(a, i))))

    def hist(S, f):
        n = S.dim("n", 1)
        k = S.dim("k", 1)
        l = S.array("l", n, dtype="i", lo=0)
        S.assume_forall(n, lambda i: S.at(l, i) < k)
        w = S.array("w", n, lo=0)
        return n, k, l, w, f(l, w, k)

    @true
    def hist_sum(S, m):
        n, k, l, w, h = hist(S, m.histogram)
        S.ensure_forall("t", k, lambda j: S.eq(S.at(h, j), S.sum(n, lambda i: S.ite(S.at(l, i) == j, S.at(w, i), 0.0))))

    @false
    def hist_late(S, m):
        n, k, l, w, h = hist(S, m.histogram_late)
        S.ensure_forall("t", k, lambda j: S.eq(S.at(h, j), S.sum(n, lambda i: S.ite(S.at(l, i) == j, S.at(w, i), 0.0))))

    @false
    def hist_pos(S, m):
        n, k, l, w, h = hist(S, m.histogram)
        S.ensure_forall("t", k, lambda j: S.gt(S.at(h, j), 0))

    @true
    def down(S, m):
        k = S.int("k")
        c = m.count_down(k)
        S.ensure("t", S.and_(c >= 0))

    @false
    def down_wrong(S, m):
        k = S.int("k")
        c = m.count_down(k)
        S.ensure("t", S.and_(c >= 1))

    @true
    def mean_zero(S, m):
        n, a = arr_(S)
        w = S.array("w", n, lo=0, lo_open=True)
        r = m.centred(a, w)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.at(r, i) * S.at(w, i)), 0.0))

    @false
    def mean_zero_wrong(S, m):
        n, a = arr_(S)
        w = S.array("w", n, lo=0, lo_open=True)
        r = m.centred(a, w)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.at(r, i)), 0.0))

    @true
    def share(S, m):
        n, w = arr_(S, "w", lo=0, lo_open=True)
        r = m.shares(w)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.at(r, i)), 1.0))
        S.ensure_forall("u", n, lambda i: S.and_(S.gt(S.at(r, i), 0), S.le(S.at(r, i), 1)))

    @false
    def share_wrong(S, m):
        n, w = arr_(S, "w", lo=0)
        r = m.shares(w)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.at(r, i)), 1.0))

    @false
    def share_strict(S, m):
        n, w = arr_(S, "w", lo=0, lo_open=True)
        r = m.shares(w)
        S.ensure_forall("u", n, lambda i: S.lt(S.at(r, i), 1))

    @false
    def mutates(S, m):
        n, a = arr_(S)
        b = S.copy(a)
        m.clip_in_place(a)
        S.ensure_forall("t", n, lambda i: S.eq(S.at(a, i), S.at(b, i)))

    @true
    def divide(S, m):
        S.ensure("t", S.isfinite(m.guarded(S.real("x"), S.real("y"))))

    @false
    def divide_wrong(S, m):
        S.ensure("t", S.isfinite(m.unguarded(S.real("x"), S.real("y"))))

    @false
    def nan_wrong(S, m):
        S.ensure("t", S.isfinite(m.guarded(S.real("x", kind="nan"), S.real("y"))))

    @true
    def select(S, m):
        n, a = arr_(S)
        p = S.array("p", n, dtype="b")
        S.ensure("t", S.eq(m.selected(a, p), 0.0))

    @false
    def select_wrong(S, m):
        n, a = arr_(S)
        p = S.array("p", n, dtype="b")
        S.ensure("t", S.eq(m.selected_wrong(a, p), 0.0))

    @true
    def rows(S, m):
        n = S.dim("n", 1)
        S.ensure("t", S.eq(m.by_row(S.array("A", (n, 3))), 0.0))

    @true
    def least(S, m):
        n, a = arr_(S)
        x = m.smallest(a)
        S.ensure_forall("t", n, lambda i: S.le(x, S.at(a, i)))

    @false
    def least_wrong(S, m):
        n, a = arr_(S)
        x = m.smallest(a)
        S.ensure_forall("t", n, lambda i: S.lt(x, S.at(a, i)))

    @false
    def find_wrong(S, m):
        n, a = arr_(S)
        r = m.early(a, S.real("x"))
        S.ensure("t", r < n)

    @true
    def find(S, m):
        n, a = arr_(S)
        r = m.early(a, S.real("x"))
        S.ensure("t", S.and_(r >= 0, r <= n))

    @false
    def sums_apart(S, m):
        n, a = arr_(S)
        b = S.array("b", n)
        S.ensure("t", S.eq(m.total(a), m.total(b)))

    @false
    def sum_of_products(S, m):
        n, a = arr_(S)
        b = S.array("b", n)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.at(a, i) * S.at(b, i)), m.total(a) * m.total(b)))

    @false
    def capture(S, m):
        # sums over the same index in two nestings must not be confused
        n, a = arr_(S)
        S.ensure("t", S.eq(S.sum(n, lambda i: S.sum(n, lambda j: S.at(a, j) * S.at(a, i))), S.sum(n, lambda i: S.at(a, i) * S.at(a, i))))

    @false
    def exponential(S, m):
        x = S.real("x")
        S.ensure("t", S.le(S.exp(x), 1.0 + x))

    @true
    def exponential_true(S, m):
        x = S.real("x", 0)
        S.ensure("t", S.ge(S.exp(x), 1.0))

    return T


def judge_one(name):
    import warnings

    warnings.simplefilter("ignore")
    from . import explore, spec
    from .loader import Loader

    f, holds = [(f, h) for q, f, h in programs() if q == name][0]
    L = Loader()
    m = L.source("cyclic_boosting.vc_selftest_programs", PROGRAMS)
    explore.attempt_replay = lambda *a, **k: None
    r = explore.explore(spec.Contract("T", name, lambda S: f(S, m), [], True, False, 0, {}), budget_s=40, ob_ms=4000, loader=L)
    proved = bool(r["obligations"]) and all(o[1] == "proved" for o in r["obligations"]) and not r["undecided"]
    if not r["covered"]:
        return name, False, "vacuous " + str(r["undecided"][:1])
    return name, proved == holds, "holds %s, proved %s %s" % (holds, proved, r["undecided"][:1])


def main():
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    sys.path.insert(0, os.environ.get("VC_REPO", "/repo"))
    sys.setrecursionlimit(6000)
    t0 = time.time()
    from .core import z3

    s = z3.Solver()
    x = z3.Real("x")
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    assert os.path.exists("/usr/bin/cvc5"), "cvc5 missing"
    import cyclic_boosting  # noqa

    from . import runner

    here = os.path.dirname(os.path.abspath(__file__))
    if "--engine" not in sys.argv:
        for f in sorted(glob.glob(os.path.join(here, "contracts", "p[0-9][0-9].py"))):
            p = os.path.basename(f)[:-3].upper()
            print(p, len(runner.load(p)), "contracts")
    bad = 0
    seeds = int(os.environ.get("VC_POINTS", "3"))
    with mp.get_context("fork").Pool(8, maxtasksperchild=40) as pool:
        for name, ok, msg in pool.map(judge_one, [p[0] for p in programs()], 1):
            if not ok:
                bad += 1
                print("WRONG JUDGEMENT of", name, msg)
        res = pool.map(agree_one, [(e, 17 * q + k) for q, e in enumerate(expressions()) for k in range(seeds)], 4)
    count = {}
    silent = {}
    for e, st, msg in res:
        count[st] = count.get(st, 0) + 1
        if st == "excluded":
            bad += 1
            print("SHIM EXCLUDES THE REAL RESULT of", e, msg)
        if st in ("no answer", "skipped"):
            silent.setdefault(e, set()).add("%s %s" % (st, msg))
    if "-v" in sys.argv:
        for e, m in silent.items():
            print("  ", e, sorted(m)[:2])
    print("programs judged: %d; library expressions at random points: %s; %.0f s" % (len(programs()), count, time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
