"""Gamma posterior of multiplicative bin factors."""
import numpy as np
import scipy.special

from ..spec import bounded, contract
from . import util

R = "regression."
ALPHA, BETA = 2, 1.67834


def _median(S, a):
    """median of the gamma distribution with shape a and rate 1"""
    if S.sym:
        from .. import sci

        return sci.gammaincinv(a, 0.5)
    return float(scipy.special.gammaincinv(a, 0.5))


def _post(S, nb, fac, unc, alpha, beta):
    """alpha(j), beta(j): weighted sums of bin j"""
    big = 1e12

    def factor(j):
        a, b = alpha(j) + ALPHA, beta(j) + BETA
        small = S.and_(S.le(a, big, 0, 0), S.le(b, big, 0, 0))
        return S.and_(
            S.implies(small, lambda: S.eq(S.at(fac, j), S.log(_median(S, a) / b), 1e-6, 1e-7)),
            S.implies(S.not_(small), lambda: S.or_(S.eq(S.at(fac, j), S.log(a / b), 1e-6, 1e-5), S.eq(S.at(fac, j), S.log(_median(S, a) / b), 1e-6, 1e-5))),
        )

    S.ensure_forall("factor is the log of the posterior median", nb, factor)
    S.ensure_forall("factors are finite", nb, lambda j: S.isfinite(S.at(fac, j)))

    def unc_(j):
        a = alpha(j) + ALPHA
        u = S.at(unc, j)
        return S.and_(S.isfinite(u), S.gt(u, 0), S.eq(u * u, S.log(1 + a) - S.log(a), 1e-4, 1e-12))

    S.ensure_forall("uncertainty is positive, finite and depends only on the shape", nb, unc_)


@contract("P12", [R + "_calc_factors_and_uncertainties", R + "_calc_factors_from_posterior", R + "get_gamma_priors"])
def posterior(S):
    m = S.mod("regression")
    nb = S.dim("nb", 1)
    hi = None if S.sym else 1e6
    a, b = S.array("alpha", nb, 0, hi), S.array("beta", nb, 0, hi)
    if not S.sym and "alpha" not in S.given and S.rng.random() < 0.3:
        k = int(S.rng.integers(0, nb))
        a[k] = 10.0 ** S.rng.uniform(11, 14)
        S._rec("alpha", a)
        b[k] = a[k] * S.rng.uniform(0.5, 2)
        S._rec("beta", b)
    a0, b0 = S.copy(a), S.copy(b)
    L = S.mod("link").LogLinkMixin()
    fac, unc = m._calc_factors_and_uncertainties(a, b, L.link_func)
    _post(S, nb, fac, unc, lambda j: S.at(a0, j), lambda j: S.at(b0, j))
    S.ensure_forall("the sums are left unchanged", nb, lambda j: S.and_(S.eq(S.at(a, j), S.at(a0, j), 0, 0), S.eq(S.at(b, j), S.at(b0, j), 0, 0)))


@contract("P12", [R + "_calc_factors_and_uncertainties", R + "get_gamma_priors"])
def neutral(S):
    """a bin without data gets the neutral factor"""
    m = S.mod("regression")
    fac, unc = m._calc_factors_and_uncertainties(np.zeros(1), np.zeros(1), np.log)
    S.ensure("no data, factor one", abs(float(fac[0])) < 1e-5)
    S.ensure("no data, uncertainty of the prior", abs(float(unc[0]) ** 2 - np.log(1.5)) < 1e-9)


def _modular(S):
    """symbolically the posterior (proved by `posterior`) is a stub that records its arguments"""
    got = {}
    if S.sym:

        def stub(alpha, beta, link_func):
            got.update(alpha=alpha, beta=beta)
            return alpha, beta

        S.stub(S.mod("regression"), "_calc_factors_and_uncertainties", stub)
    return got


def _sums(S, got, B, fac, unc, alpha, beta):
    if not S.sym:
        return _post(S, B, fac, unc, alpha, beta)
    S.ensure("result of the posterior is returned", fac is got["alpha"] and unc is got["beta"])
    S.ensure_forall("sums are not negative", B, lambda j: S.and_(S.ge(S.at(got["alpha"], j), 0), S.ge(S.at(got["beta"], j), 0)))
    S.ensure_forall("shape is the weighted sum of targets in the bin", B, lambda j: S.eq(S.at(got["alpha"], j), alpha(j)))
    S.ensure_forall("rate is the weighted sum of predictions in the bin", B, lambda j: S.eq(S.at(got["beta"], j), beta(j)))


def _data(S, wlo=0, ylo=0):
    n, nb = S.dim("n", 1, big=3000), S.dim("nb", 0, big=200)
    lex = S.array("lex", n, 0, nb, dtype="i")
    y = S.array("y", n, ylo)
    w = S.array("w", n, wlo)
    link = S.array("link", n, None if S.sym else -5.0, None if S.sym else 5.0)
    return n, nb, lex, y, w, link


@contract("P12", [R + "CBPoissonRegressor.calc_parameters", R + "CBPoissonRegressor.precalc_parameters"])
def poisson(S):
    n, nb, lex, y, w, link = _data(S)
    e = util.make(S, "poisson", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    p = util.pred(S, link)
    got = _modular(S)
    pre = e.precalc_parameters(f, y, p)
    fac, unc = e.calc_parameters(f, y, p, pre)
    B = nb + 1
    S.ensure("one value per bin", S.and_(S.eq(S.len(fac), B, 0, 0), S.eq(S.len(unc), B, 0, 0)))
    _sums(
        S, got, B, fac, unc,
        lambda j: util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.at(y, i)),
        lambda j: util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.exp(S.at(link, i))),
    )


@contract("P12", [R + "CBNBinomRegressor.calc_parameters", R + "CBNBinomRegressor.__init__"])
def nbinom(S):
    n, nb, lex, y, w, link = _data(S)
    a, c = S.real("a", 0, lo_open=True), S.real("c", 0)
    if not S.sym and "a" not in S.given:
        a = S._rec("a", float(S.rng.uniform(0.3, 3)))
    e = util.make(S, "nbinom", ["a"], {"a": S.mod("flags").IS_UNORDERED}, a=a, c=c)
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    p = util.pred(S, link)
    got = _modular(S)
    fac, unc = e.calc_parameters(f, y, p, e.precalc_parameters(f, y, p))
    B = nb + 1
    S.ensure("one value per bin", S.and_(S.eq(S.len(fac), B, 0, 0), S.eq(S.len(unc), B, 0, 0)))

    def vm(i):
        return a + c * S.exp(S.at(link, i))

    _sums(
        S, got, B, fac, unc,
        lambda j: util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.at(y, i) / vm(i)),
        lambda j: util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.exp(S.at(link, i)) / vm(i)),
    )


@bounded("P12", [R + "CBNBinomRegressor", "price.CBExponential.calc_parameters"], trials=60)
def special_cases(S):
    """bounded: the Poisson regressor is the negative binomial one with a=1, c=0, also inside the price model"""
    rng = S.rng
    n, nb = S.int("n", 1, 40), S.int("nb", 1, 6)
    lex = rng.integers(0, nb + 1, n)
    y = rng.poisson(3, n).astype(float)
    w = rng.uniform(0, 2, n)
    link = rng.normal(0, 1, n)
    f = util.feature(S, bins=nb, lex=lex)
    f.external_col = None
    out = []
    X = {"a": S.mod("flags").IS_UNORDERED}
    e1, e2 = util.make(S, "poisson", ["a"], X), util.make(S, "nbinom", ["a"], X)
    e3 = S.mod("price").CBExponential("price", ["a"], ["a"], feature_properties=X)
    for e in (e1, e2, e3):
        e.weights = w
        e.external_col = np.zeros(n)
        p = util.pred(S, link.copy())
        out.append(e.calc_parameters(f, y, p, e.precalc_parameters(f, y, p)))
    for o in out[1:]:
        S.ensure("same factors", np.allclose(o[0], out[0][0]))
        S.ensure("same uncertainties", np.allclose(o[1], out[0][1]))
