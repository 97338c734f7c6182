"""Classifier: boosted beta posterior, quantile matching, class probabilities."""
import types

import numpy as np
import scipy.special
import scipy.stats

from ..spec import bounded, contract
from . import util

C = "classification."
PRIOR = 1.001
EPS = 1e-12


def _est(S):
    return util.make(S, "classifier", ["a"], {"a": S.mod("flags").IS_UNORDERED})


def _clipped(S, p):
    return S.ite(S.eq(p, 0.0, 0, 0), EPS, S.ite(S.eq(p, 1.0, 0, 0), 1 - EPS, p))


@contract("P13", [C + "boost_weights"])
def boosting_weights(S):
    n = S.dim("n", 1)
    y = S.array("y", n, 0, 1, dtype="i")
    yf = S.array("yf", n, 0, 1, ints=True)
    p = S.array("p", n, 0, 1)
    if not S.sym and "p" not in S.given:
        for v in (0.0, 1.0):
            p[S.rng.random(n) < 0.2] = v
        S._rec("p", p)
    for nm, t in (("int", y), ("float", yf)):
        w = S.mod("classification").boost_weights(t, p)

        def f(i):
            q = _clipped(S, S.at(p, i))
            return S.eq(S.at(w, i), S.ite(S.eq(S.at(t, i), 1, 0, 0), 1 - q, q), 1e-9, 1e-11)

        S.ensure_forall("distance between target and prediction (%s)" % nm, n, f)
        S.ensure_forall("never zero, at most one (%s)" % nm, n, lambda i: S.and_(S.gt(S.at(w, i), 0), S.le(S.at(w, i), 1)))


@contract("P13", ["base.gaussian_matching_by_quantiles", "base._coefficient_for_gaussian_matching_by_quantiles"])
def matching(S):
    """the Gaussian has the given quantiles of the transformed distribution, whatever the distribution"""
    m = S.mod("base")
    n = S.dim("n", 1)
    p1, p2 = S.array("p1", n, 0.02, 0.98), S.array("p2", n, 0.02, 0.98)
    q1, q2 = S.array("q1", n), S.array("q2", n)
    if not S.sym and "p1" not in S.given:
        p2 = S._rec("p2", S.rng.uniform(0.05, 0.5, n))
        p1 = S._rec("p1", p2 + S.rng.uniform(0.06, 0.45, n))
        q1 = S._rec("q1", q2 + S.rng.uniform(0.01, 3, n))
    S.assume_forall(n, lambda i: S.gt(S.at(p1, i) - S.at(p2, i), 0.05))
    S.assume_forall(n, lambda i: S.gt(S.at(q1, i), S.at(q2, i)))
    mu, sigma = m.gaussian_matching_by_quantiles(
        types.SimpleNamespace(ppf=lambda p: q1 if p is p1 else q2), lambda x: x * 2.0 + 1.0, p1, p2
    )

    def z(p):
        if S.sym:
            from .. import sci, trans

            return trans.sqrt(2.0) * sci.erfinv(2 * p - 1)
        return float(np.sqrt(2) * scipy.special.erfinv(2 * p - 1))

    for nm, p, q in (("first", p1, q1), ("second", p2, q2)):
        S.ensure_forall(nm + " quantile is matched", n, lambda i: S.eq(S.at(mu, i) + S.at(sigma, i) * z(S.at(p, i)), S.at(q, i) * 2.0 + 1.0, 1e-6, 1e-6))
    S.ensure_forall("width is positive", n, lambda i: S.gt(S.at(sigma, i), 0))


def _data(S):
    n, nb = S.dim("n", 1, big=2000), S.dim("nb", 0, big=150)
    lex = S.array("lex", n, 0, nb, dtype="i")
    y = S.array("y", n, 0, 1, ints=True)
    w = S.array("w", n, 0)
    link = S.array("link", n, None if S.sym else -6.0, None if S.sym else 6.0)
    return n, nb, lex, y, w, link


def _oracle(alpha, beta):
    a, b = alpha + PRIOR, beta + PRIOR
    shift = 0.4 * (a / (a + b) - 0.5)
    q = [scipy.special.logit(scipy.stats.beta(a, b).ppf(p)) for p in (0.75 - shift, 0.25 - shift)]
    z = [scipy.stats.norm.ppf(p) for p in (0.75 - shift, 0.25 - shift)]
    sigma = (q[0] - q[1]) / (z[0] - z[1])
    return q[0] - sigma * z[0], sigma


@contract("P13", [C + "CBClassifier.calc_parameters", C + "CBClassifier._get_posterior_dist_from_prior_dist", C + "CBClassifier._get_percentiles_from_distribution_parameters", C + "get_beta_priors"])
def bin_values(S):
    n, nb, lex, y, w, link = _data(S)
    e = _est(S)
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    p = util.pred(S, link)
    got = {}
    if S.sym:
        def stub(dist, link_func, perc1, perc2):
            got.update(dist=dist, link=link_func, perc=(perc1, perc2))
            return perc1, perc2

        S.stub(S.mod("base"), "gaussian_matching_by_quantiles", stub)

        def beta(a, b):
            got.update(a=a, b=b)
            return "posterior"

        S.patch(S.mod("classification").scipy.stats, "beta", beta)
    fac, unc = e.calc_parameters(f, y, p, e.precalc_parameters(f, y, p))
    B = nb + 1
    S.ensure("one value per bin", S.and_(S.eq(S.len(fac), B, 0, 0), S.eq(S.len(unc), B, 0, 0)))

    def q(i):
        l = S.at(link, i)
        return 1 / (1 + S.exp(-l))

    def pos(j):
        return util.binsum(S, n, lex, j, lambda i: S.at(w, i) * (1 - q(i)) * S.at(y, i))

    def neg(j):
        return util.binsum(S, n, lex, j, lambda i: S.at(w, i) * q(i) * (1 - S.at(y, i)))

    if S.sym:
        if "a" not in got or "dist" not in got:
            S._outside("posterior not built by scipy.stats.beta and the quantile matching")
        S.ensure("posterior is matched and its result returned", got["dist"] == "posterior" and fac is got["perc"][0] and unc is got["perc"][1])
        S.ensure_forall("first parameter counts the positives", B, lambda j: S.eq(S.at(got["a"], j), PRIOR + pos(j)))
        S.ensure_forall("second parameter counts the negatives", B, lambda j: S.eq(S.at(got["b"], j), PRIOR + neg(j)))
        p1, p2 = got["perc"]
        S.ensure_forall("the two shares are proper and ordered", B, lambda j: S.and_(S.gt(S.at(p2, j), 0), S.lt(S.at(p2, j), S.at(p1, j)), S.lt(S.at(p1, j), 1)))
        x = S.real("x", 0, 1, True, True)
        S.ensure("matched in logit space", S.eq(got["link"](x), S.log(x) - S.log(1 - x)))
    else:
        for j in range(B):
            m, s = _oracle(pos(j), neg(j))
            S.ensure("value of the bin", bool(np.isclose(fac[j], m, 1e-5, 1e-6)))
            S.ensure("uncertainty of the bin", bool(np.isclose(unc[j], s, 1e-5, 1e-6)))


@contract("P13", [C + "CBClassifier.predict_proba", C + "CBClassifier.predict", "base.CyclicBoostingBase.predict", "link.LogitLinkMixin.unlink_func"])
def probabilities(S):
    n = S.dim("n", 1)
    link = S.array("link", n, None if S.sym else -40.0, None if S.sym else 40.0)
    if not S.sym and "link" not in S.given:
        link[S.rng.random(n) < 0.3] = 0.0
        S._rec("link", link)
    e = _est(S)
    S.stub(e, "predict_extended", lambda X, *a, **k: util.pred(S, link))
    pp = e.predict_proba(None)
    c = e.predict(None)
    S.ensure("one row per sample, two columns", S.and_(S.eq(S.shape(pp)[0], n, 0, 0), S.eq(S.shape(pp)[1], 2, 0, 0), S.eq(S.len(c), n, 0, 0)))
    S.ensure_forall("columns sum to one", n, lambda i: S.eq(S.at(pp, i, 0) + S.at(pp, i, 1), 1, 1e-12, 1e-12))
    S.ensure_forall("probabilities", n, lambda i: S.and_(S.ge(S.at(pp, i, 0), 0), S.le(S.at(pp, i, 0), 1), S.ge(S.at(pp, i, 1), 0), S.le(S.at(pp, i, 1), 1)))
    S.ensure_forall("second column is the positive class", n, lambda i: S.eq(S.at(pp, i, 1) * (1 + S.exp(-S.at(link, i))), 1, 1e-9, 0))
    S.ensure_forall("class by one half", n, lambda i: S.eq(S.at(c, i), S.ite(S.gt(S.at(pp, i, 1), 0.5), 1, 0), 0, 0))


@bounded("P13", [C + "CBClassifier.fit"], trials=40)
def trainings(S):
    """bounded: bin values recomputed along whole trainings of random data"""
    c = util.Case(S, "classifier")
    seen = []
    cls = S.mod("classification").CBClassifier
    e = util.make(S, "classifier", c.groups, c.props, **c.kw(S))
    orig = e.calc_parameters

    def spy(feature, y, pred, prefit_data):
        l = np.array(pred.predict_link(), dtype=float)
        r = orig(feature, y, pred, prefit_data)
        seen.append((feature.n_bins, feature.lex_binned_data.copy(), np.asarray(y).copy(), l, r, e.weights.copy()))
        return r

    e.calc_parameters = spy
    try:
        util.quiet(e.fit, c.X.copy(), c.y.copy())
    except Exception as x:
        if util.diverged(S, x):
            return
        raise
    w = c.X["w"].values if c.weight_column else np.ones(c.n)
    for B, lex, y, l, (fac, unc), ww in seen:
        S.ensure("sample weights are used", np.allclose(ww, w))
        p = 1 / (1 + np.exp(-l))
        pos = np.bincount(lex, weights=w * (1 - p) * y, minlength=B)
        neg = np.bincount(lex, weights=w * p * (1 - y), minlength=B)
        m, s = _oracle(pos, neg)
        S.ensure("bin values", np.allclose(fac, m, 1e-4, 1e-5) and np.allclose(unc, s, 1e-4, 1e-5))
    pp = util.quiet(e.predict_proba, c.X.copy())
    cl = util.quiet(e.predict, c.X.copy())
    S.ensure("probabilities", bool(((pp >= 0) & (pp <= 1)).all()) and np.allclose(pp.sum(axis=1), 1))
    S.ensure("classes", np.array_equal(cl, (pp[:, 1] > 0.5).astype(float)))
