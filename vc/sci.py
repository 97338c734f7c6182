"""scipy shims: uninterpreted functions with assumed contracts."""
import types

import scipy
import scipy.special
import scipy.stats

from . import arr, symnp, trans
from .arr import F8, elementwise
from .core import *  # noqa
from .core import z3, cx

RS = z3.RealSort()


def _wrap(real, fn, name):
    def f(*a, **k):
        if symnp.is_sym(a) or symnp.is_sym(k):
            return fn(*a, **k)
        return real(*a, **k)

    f.__name__ = name
    return f


def uf_apps(name, args, axioms):
    """application of an uninterpreted real function with axioms(c, args, r, older)"""
    c = cx()
    F = trans.fn(name, *([RS] * (len(args) + 1)))
    args = [trans.canon(a) for a in args]
    r = F(*args)
    apps = c.apps.setdefault(name, {})
    key = r.get_id()
    if key not in apps:
        old = list(apps.values())
        apps[key] = (args, r)
        c.keep.append(r)
        hy, c.hyps = c.hyps, []
        try:
            axioms(c, args, r, old)
        finally:
            c.hyps = hy
    return r


# gammaincinv(a, p): increasing in p, positive for a > 0, 0 < p < 1; the median is below the mean a
def _ax_gii(c, a, r, old):
    dom = z3.And(a[0] > 0, a[1] > 0, a[1] < 1)
    c.add(r > 0, dom)
    for (b, rb) in old:
        d2 = z3.And(dom, b[0] > 0, b[1] > 0, b[1] < 1)
        c.add(z3.Implies(a[1] == b[1], (a[0] < b[0]) == (r < rb)), d2)
        c.add(z3.Implies(a[0] == b[0], (a[1] < b[1]) == (r < rb)), d2)


def gammaincinv(a, p, out=None, **k):
    def one(a, p):
        a, p = as_real(a), as_real(p)
        if not (a.plain and p.plain):
            fin = band(a.finite, p.finite)
            if not cx().valid(fin):
                raise Unsupported("gammaincinv of non-finite")
        dom = band(a.v > 0, p.v > 0, p.v < 1)
        r = uf_apps("gammaincinv", [a.v, p.v], _ax_gii)
        if cx().valid(dom):
            return SReal(r)
        return SReal(r, prune(bor(a.v < 0, p.v < 0, p.v > 1)), False, False)

    return elementwise(one, a, p, dtype=F8)


def _ax_erfinv(c, a, r, old):
    dom = z3.And(a[0] > -1, a[0] < 1)
    c.add((a[0] > 0) == (r > 0), dom)
    c.add((a[0] == 0) == (r == 0), dom)
    for (b, rb) in old:
        c.add((a[0] < b[0]) == (r < rb), z3.And(dom, b[0] > -1, b[0] < 1))
        if bconst(z3.simplify(a[0] + b[0] == 0, som=True)) is True:
            c.add(r == -rb)


def erfinv(x, **k):
    def one(x):
        x = as_real(x)
        r = uf_apps("erfinv", [x.v], _ax_erfinv)
        if not cx().valid(band(x.finite, x.v > -1, x.v < 1)):
            raise Unsupported("erfinv outside (-1, 1)")
        return SReal(r)

    return elementwise(one, x, dtype=F8)


# beta.ppf(q, a, b): in (0,1), increasing in q
def _ax_bppf(c, a, r, old):
    dom = z3.And(a[0] > 0, a[0] < 1, a[1] > 0, a[2] > 0)
    c.add(z3.And(r > 0, r < 1), dom)
    for (b, rb) in old:
        if a[1].eq(b[1]) and a[2].eq(b[2]):
            c.add((a[0] < b[0]) == (r < rb), z3.And(dom, b[0] > 0, b[0] < 1))


class BetaDist:
    def __init__(self, real):
        self._real = real

    def __call__(self, a, b):
        if symnp.is_sym((a, b)):
            return types.SimpleNamespace(
                ppf=lambda q: self.ppf(q, a, b),
                mean=lambda: self.mean(a, b),
                std=lambda: self.std(a, b),
                var=lambda: self.var(a, b),
                cdf=lambda x: self.cdf(x, a, b),
            )
        return self._real(a, b)

    def ppf(self, q, a, b):
        if not symnp.is_sym((q, a, b)):
            return self._real.ppf(q, a, b)

        def one(q, a, b):
            q, a, b = as_real(q), as_real(a), as_real(b)
            dom = band(q.finite, a.finite, b.finite, q.v > 0, q.v < 1, a.v > 0, b.v > 0)
            r = uf_apps("beta_ppf", [q.v, a.v, b.v], _ax_bppf)
            if not cx().valid(dom):
                raise Unsupported("beta.ppf outside its domain")
            return SReal(r)

        return elementwise(one, q, a, b, dtype=F8)

    def mean(self, a, b):
        return a / (a + b)

    def var(self, a, b):
        if not symnp.is_sym((a, b)):
            return self._real.var(a, b)
        return elementwise(lambda a, b: arith("/", arith("*", a, b), arith("*", arith("*", arith("+", a, b), arith("+", a, b)), arith("+", arith("+", a, b), 1.0))), a, b, dtype=F8)

    def std(self, a, b):
        if not symnp.is_sym((a, b)):
            return self._real.std(a, b)
        return elementwise(trans.sqrt, self.var(a, b), dtype=F8)

    def cdf(self, x, a, b):
        if not symnp.is_sym((x, a, b)):
            return self._real.cdf(x, a, b)
        raise Unsupported("beta.cdf")

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


class SymDist:
    """standard normal or logistic: cdf and ppf are inverse, increasing, symmetric"""

    def __init__(self, real, name):
        self._real, self._name = real, name

    def _ax_ppf(self, c, a, r, old):
        dom = z3.And(a[0] > 0, a[0] < 1)
        cdf = trans.fn(self._name + "_cdf", RS, RS)
        c.add(cdf(r) == a[0], dom)
        self._link("cdf", r, a[0], dom)
        c.add((a[0] > z3.RealVal("1/2")) == (r > 0), dom)
        c.add((a[0] == z3.RealVal("1/2")) == (r == 0), dom)
        for (b, rb) in old:
            d2 = z3.And(dom, b[0] > 0, b[0] < 1)
            c.add((a[0] < b[0]) == (r < rb), d2)
            if bconst(z3.simplify(a[0] + b[0] == 1, som=True)) is True:
                c.add(r == -rb)

    def _link(self, which, t, v, dom):
        """remember t as a point of the cdf graph for monotonicity"""
        c = cx()
        apps = c.apps.setdefault(self._name + "_cdf", {})
        if t.get_id() in {x[0][0].get_id() for x in apps.values()}:
            return
        for (b, rb) in list(apps.values()):
            c.add((t < b[0]) == (v < rb), dom)
            c.add((t == b[0]) == (v == rb), dom)
        apps[("l", t.get_id())] = ([t], v)

    def _ax_cdf(self, c, a, r, old):
        c.add(z3.And(r > 0, r < 1))
        c.add((a[0] > 0) == (r > z3.RealVal("1/2")))
        c.add((a[0] == 0) == (r == z3.RealVal("1/2")))
        ppf = trans.fn(self._name + "_ppf", RS, RS)
        c.add(ppf(r) == a[0])
        for (b, rb) in old:
            if "pair" in c.memo:
                trans.factored(a[0], b[0])
            c.add((a[0] < b[0]) == (r < rb))
            c.add((a[0] == b[0]) == (r == rb))
            if bconst(z3.simplify(a[0] + b[0] == 0, som=True)) is True:
                c.add(r + rb == 1)

    def __call__(self, *a, **k):
        return self._real(*a, **k) if a or k else self

    def ppf(self, q, *a, **k):
        if not symnp.is_sym(q):
            return self._real.ppf(q, *a, **k)
        if a or k:
            raise Unsupported("ppf with parameters")

        def one(q):
            q = as_real(q)
            if cx().memo.get("opaque"):
                return SReal(trans.fn(self._name + "_ppf", RS, RS)(z3.simplify(q.v)))
            t = trans.canon(q.v)
            if q.plain and trans._is_app2(t, self._name + "_cdf"):
                return SReal(t.arg(0))
            nt = trans.canon(1 - t)
            F = trans.fn(self._name + "_ppf", RS, RS)
            apps = cx().apps.get(self._name + "_ppf", {})
            if q.plain and F(t).get_id() not in apps and F(nt).get_id() in apps and cx().valid(z3.And(t > 0, t < 1)):
                return SReal(-F(nt))
            r = uf_apps(self._name + "_ppf", [t], self._ax_ppf)
            fin = q.finite
            return SReal(r, prune(bor(bnot(fin), band(fin, bor(t < 0, t > 1)))), prune(band(fin, t == 1)), prune(band(fin, t == 0)))

        return elementwise(one, q, dtype=F8)

    def cdf(self, x, *a, **k):
        if not symnp.is_sym(x):
            return self._real.cdf(x, *a, **k)
        if a or k:
            raise Unsupported("cdf with parameters")

        def one(x):
            x = as_real(x)
            if cx().memo.get("opaque"):
                return SReal(trans.fn(self._name + "_cdf", RS, RS)(z3.simplify(x.v)))
            t = trans.canon(x.v)
            if x.plain and trans._is_app2(t, self._name + "_ppf"):
                u = t.arg(0)
                if cx().valid(z3.And(u > 0, u < 1)):
                    return SReal(u)
            r = uf_apps(self._name + "_cdf", [t], self._ax_cdf)
            if x.plain:
                return SReal(r)
            return SReal(zite(x.pinf, rv(1), zite(x.ninf, rv(0), r)), x.nan)

        return elementwise(one, x, dtype=F8)

    def pdf(self, x, *a, **k):
        if not symnp.is_sym(x):
            return self._real.pdf(x, *a, **k)

        def one(x):
            x = as_real(x)
            r = uf_apps(self._name + "_pdf", [x.v], lambda c, a, r, old: c.add(r > 0))
            return SReal(r, x.nan)

        return elementwise(one, x, dtype=F8)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def shims():
    sp = symnp.Mod(scipy.special, {"gammaincinv": _wrap(scipy.special.gammaincinv, gammaincinv, "gammaincinv"), "erfinv": _wrap(scipy.special.erfinv, erfinv, "erfinv")})
    beta = BetaDist(scipy.stats.beta)
    st = symnp.Mod(
        scipy.stats,
        {
            "beta": beta,
            "norm": SymDist(scipy.stats.norm, "norm"),
            "logistic": SymDist(scipy.stats.logistic, "logistic"),
        },
    )

    sc = symnp.Mod(scipy, {"special": sp, "stats": st})
    return {"scipy": sc, "scipy.special": sp, "scipy.stats": st}
