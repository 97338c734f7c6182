"""Additive bin estimates and calibration."""
import numpy as np

from ..spec import bounded, contract
from . import util

L = "location."


def _bins(S):
    n, nb = S.dim("n", 1, big=2000), S.dim("nb", 0, big=150)
    lex = S.array("lex", n, 0, nb, dtype="i")
    return n, nb, nb + 1, lex


@contract("P14", ["base.calc_factors_generic"])
def generic(S):
    n, nb, B, lex = _bins(S)
    w, x, v = S.array("w", n, 0), S.array("x", n), S.array("v", n, 0)
    x0, w0 = S.real("x0"), S.real("w0", 0, lo_open=True)
    wx = w * x
    m, u = S.mod("base").calc_factors_generic(lex, wx, w, wx * x, v, B, x0, w0)
    sw = lambda j: util.binsum(S, n, lex, j, lambda i: S.at(w, i)) + w0
    S.ensure("one value per bin", S.and_(S.eq(S.len(m), B, 0, 0), S.eq(S.len(u), B, 0, 0)))
    S.ensure_forall("finite value", B, lambda j: S.isfinite(S.at(m, j)))
    S.ensure_forall("finite uncertainty, not negative", B, lambda j: S.and_(S.isfinite(S.at(u, j)), S.ge(S.at(u, j), 0)))
    S.ensure_forall(
        "precision-weighted mean with the prior", B, lambda j: S.eq(S.at(m, j) * sw(j), util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.at(x, i)) + w0 * x0, 1e-6, 1e-6)
    )
    S.ensure_forall(
        "variance of the mean",
        B,
        lambda j: S.eq(S.at(u, j) * S.at(u, j) * sw(j) * sw(j), util.binsum(S, n, lex, j, lambda i: S.at(w, i) * S.at(v, i)) + w0, 1e-6, 1e-6),
    )


@contract("P14", [L + "calc_parameters_intercept", "base.calc_factors_generic"])
def intercept(S):
    """the estimate of a bin lies between 0 and the extreme residuals of the bin"""
    n, nb, B, lex = _bins(S)
    y, p, w, var = S.array("y", n), S.array("p", n), S.array("w", n, 0), S.array("var", n, 0, lo_open=True)
    j = S.int("j", 0, nb)
    if S.sym:
        lo, hi = S.real("lo", None, 0), S.real("hi", 0)
        S.assume_forall(n, lambda i: S.implies(S.eq(S.at(lex, i), j), lambda: S.and_(S.at(y, i) - S.at(p, i) >= lo, S.at(y, i) - S.at(p, i) <= hi)))
        S.hint(j)
    else:
        r = (y - p)[np.asarray(lex) == j]
        lo, hi = min(0.0, r.min() if len(r) else 0.0) - 1e-9, max(0.0, r.max() if len(r) else 0.0) + 1e-9
    m, u = S.mod("location").calc_parameters_intercept(lex, p, B, y, var, w)
    W = util.binsum(S, n, lex, j, lambda i: S.at(w, i) / S.at(var, i))
    R = util.binsum(S, n, lex, j, lambda i: S.at(w, i) / S.at(var, i) * (S.at(y, i) - S.at(p, i)))
    S.ensure("precision-weighted mean of the residuals with a prior at 0", S.eq(S.at(m, j) * (W + 0.01), R, 1e-6, 1e-6))
    if S.sym:
        up = util.binsum(S, n, lex, j, lambda i: S.at(w, i) / S.at(var, i) * (hi - (S.at(y, i) - S.at(p, i))))
        dn = util.binsum(S, n, lex, j, lambda i: S.at(w, i) / S.at(var, i) * ((S.at(y, i) - S.at(p, i)) - lo))
        S.ensure("lemma: weighted distance to the upper end", S.and_(up >= 0, S.eq(up, hi * W - R)))
        S.ensure("lemma: weighted distance to the lower end", S.and_(dn >= 0, S.eq(dn, R - lo * W)))
        S.assume(S.and_(up >= 0, S.eq(up, hi * W - R), dn >= 0, S.eq(dn, R - lo * W)))
    S.ensure("between 0 and the extreme residuals", S.and_(S.at(m, j) >= lo, S.at(m, j) <= hi))
    S.ensure("finite", S.and_(S.isfinite(S.at(m, j)), S.isfinite(S.at(u, j)), S.at(u, j) >= 0))
    empty = S.not_(S.exists(n, lambda i: S.eq(S.at(lex, i), j, 0, 0)))
    S.ensure("0 for a bin without data", S.implies(S.and_(empty) if not S.sym else S.and_(S.eq(W, 0), S.eq(R, 0)), lambda: S.eq(S.at(m, j), 0)))


@contract("P14", [L + "precalc_variance_y"])
def variance(S):
    """posterior variance of the target per bin"""
    n, nb, B, lex = _bins(S)
    y, w = S.array("y", n), S.array("w", n, 0)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    f = util.feature(S, bins=nb, lex=lex)
    v = S.mod("location").precalc_variance_y(f, y, w)
    S.ensure("one variance per bin", S.eq(S.len(v), B, 0, 0))
    S.ensure_forall("positive and finite", B, lambda j: S.and_(S.isfinite(S.at(v, j)), S.gt(S.at(v, j), 0)))


@contract("P14", [L + "precalc_variance_y"])
def variance_value(S):
    """the variance of a bin: one observation of the global variance and the deviations from the mean of the bin"""
    n, nb, B, lex = _bins(S)
    y, w = S.array("y", n), S.array("w", n, 0)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    f = util.feature(S, bins=nb, lex=lex)
    v = S.mod("location").precalc_variance_y(f, y, w)
    mean = S.sum(n, lambda i: S.at(y, i) * S.at(w, i)) / W
    spread = S.sum(n, lambda i: (S.at(y, i) - mean) * (S.at(y, i) - mean) * S.at(w, i)) / W
    j = S.int("j", 0, nb)
    Wj = util.binsum(S, n, lex, j, lambda i: S.at(w, i))

    def mid(b):
        Wb = util.binsum(S, n, lex, b, lambda i: S.at(w, i))
        return util.binsum(S, n, lex, b, lambda i: S.at(w, i) * S.at(y, i)) / S.ite(Wb > 0, Wb, 1.0)

    mj = None if S.sym else mid(j)
    dev = util.binsum(S, n, lex, j, lambda i: S.at(w, i) * (S.at(y, i) - (mid(S.at(lex, i)) if S.sym else mj)) ** 2)
    S.assume(S.or_(S.sym, spread > 1e-6))
    S.ensure("one observation of the global variance and the deviations from the mean of the bin", S.eq(S.at(v, j) * (1 + Wj), S.ite(spread <= 1e-9, 1.0, spread) + dev, 1e-6, 1e-6))


@contract("P14", [L + "CBLocationRegressor.calc_parameters"])
def location(S):
    """each sample is weighted with the variance of its bin"""
    n, nb, B, lex = _bins(S)
    y, w, link = S.array("y", n), S.array("w", n, 0), S.array("link", n)
    var = S.array("var", B, 0, lo_open=True)
    e = util.make(S, "location", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    m, u = e.calc_parameters(f, y, util.pred(S, link), var)

    def g(i):
        return S.at(w, i) / S.at(var, S.at(lex, i))

    S.ensure("one value per bin", S.eq(S.len(m), B, 0, 0))
    S.ensure_forall(
        "residuals to the current prediction",
        B,
        lambda j: S.eq(S.at(m, j) * (util.binsum(S, n, lex, j, g) + 0.01), util.binsum(S, n, lex, j, lambda i: g(i) * (S.at(y, i) - S.at(link, i))), 1e-6, 1e-6),
    )
    S.ensure_forall("finite", B, lambda j: S.and_(S.isfinite(S.at(m, j)), S.isfinite(S.at(u, j)), S.ge(S.at(u, j), 0)))


@contract("P14", [L + "CBLocationRegressor.precalc_parameters"])
def location_prefit(S):
    n, nb, B, lex = _bins(S)
    y, w = S.array("y", n), S.array("w", n, 0)
    S.assume(S.sum(n, lambda i: S.at(w, i)) > 0)
    e = util.make(S, "location", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    v = e.precalc_parameters(f, y, None)
    S.ensure("one variance per bin", S.eq(S.len(v), B, 0, 0))
    S.ensure_forall("positive and finite", B, lambda j: S.and_(S.isfinite(S.at(v, j)), S.gt(S.at(v, j), 0)))


@contract("P14", [L + "CBLocationRegressor.calibrate_to_weighted_mean"])
def calibration(S):
    fl = S.mod("flags")
    nb = S.dim("nb", 1)
    B = nb + 1
    notlearned = S.choice("missing_not_learned", [False, True])
    fac, ws = S.array("factors", B), S.array("weights", B, 0)
    e = util.make(S, "location", ["a"], {"a": fl.IS_UNORDERED})
    f = util.feature(S, bins=nb, prop=(fl.IS_CONTINUOUS | (fl.MISSING_NOT_LEARNED if notlearned else 0),), wsum=ws)
    f.factors_link = fac
    k = nb if notlearned else B
    W = S.sum(k, lambda j: S.at(ws, j))
    S.assume(W > 0)
    r = e.calibrate_to_weighted_mean(f)
    S.ensure("one value per bin", S.eq(S.len(r), B, 0, 0))
    m = S.sum(k, lambda j: S.at(ws, j) * S.at(fac, j))
    S.ensure_forall("all values are shifted by the weighted mean", k, lambda j: S.eq((S.at(r, j) - S.at(fac, j)) * W, -m, 1e-6, 1e-6))
    if notlearned:
        S.ensure("missing values stay neutral", S.eq(S.at(r, nb), 0.0, 0, 1e-12))
    # weighted mean of the shifted values: sum w (f - m/W) = m - W m/W
    q = S.at(r, 0) - S.at(fac, 0)
    tot = S.sum(k, lambda j: S.at(ws, j) * (S.at(fac, j) + q))
    S.ensure("weighted mean is zero", S.eq(tot, 0.0, 1e-6, 1e-6 * (1 if S.sym else float(np.abs(np.asarray(ws) * np.asarray(fac)).sum() + 1))))


@contract("P14", [L + "CBLocPoissonRegressor.calc_parameters", L + "CBLocPoissonRegressor._regularize_summands"])
def locpoisson(S):
    """values shrunk from the weighted mean residual of the bin towards 0"""
    n, nb, B, lex = _bins(S)
    y, w, link = S.array("y", n, 0), S.array("w", n, 0), S.array("link", n)
    gstd = S.real("global_std", 0, lo_open=True)
    if not S.sym and "global_std" not in S.given:
        gstd = S._rec("global_std", float(S.rng.uniform(0.1, 3)))
    e = util.make(S, "locpoisson", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    bc = S.array("bincount", B, 0)
    m, u = e.calc_parameters(f, y, util.pred(S, link), (None, bc, gstd))

    def pr(i):
        return S.max(S.at(link, i), 0.0)

    def var(i):
        return S.ite(S.le(S.at(link, i), 0.0, 0, 0), 1.0, S.at(link, i))

    def num(j):
        return util.binsum(S, n, lex, j, lambda i: S.at(w, i) * (S.at(y, i) - pr(i)) / var(i))

    def den(j):
        return util.binsum(S, n, lex, j, lambda i: S.at(w, i) / var(i))

    S.ensure("one value per bin", S.eq(S.len(m), B, 0, 0))
    S.ensure_forall("finite, with a positive uncertainty", B, lambda j: S.and_(S.isfinite(S.at(m, j)), S.isfinite(S.at(u, j)), S.gt(S.at(u, j), 0)))

    def shrunk(j):
        d = den(j)
        s = num(j) / S.ite(d > 0, d, 1.0)
        uu = S.at(u, j)
        return S.eq(S.at(m, j) * (S.at(bc, j) / (uu * uu) + 1.0 / (gstd * gstd)), S.at(bc, j) * s / (uu * uu), 1e-6, 1e-6)

    S.ensure_forall("prior-regularised mean residual", B, shrunk)


@bounded("P14", [L + "CBLocationRegressor", L + "CBLocPoissonRegressor"], trials=150)
def trainings(S):
    """bounded: every cycle of real trainings, estimates and calibration at the level of the samples"""
    mode = S.choice("mode", ["location", "locpoisson"])
    c = util.Case(S, mode)
    S._rec("rows", c.n)
    e = util.make(S, mode, c.groups, c.props, **c.kw(S))
    log = []
    oc, ok = e.calc_parameters, e.calibrate_to_weighted_mean

    def calc(feature, y, pred, prefit_data):
        r = oc(feature, y, pred, prefit_data)
        res = y - np.maximum(pred.predict_link(), 0 if mode == "locpoisson" else -np.inf)
        for j in range(feature.n_bins):
            k = (feature.lex_binned_data == j) & (e.weights > 0)
            lo, hi = (min(0, res[k].min()), max(0, res[k].max())) if k.any() else (0.0, 0.0)
            log.append(("between", lo - 1e-9 <= r[0][j] <= hi + 1e-9))
            log.append(("uncertainty", np.isfinite(r[1][j]) and r[1][j] >= 0))
        return r

    def cal(feature):
        r = ok(feature)
        if mode == "location":
            k = np.ones(c.n, bool)
            if feature.missing_not_learned:
                k = feature.lex_binned_data < feature.n_bins - 1
                log.append(("neutral", r[-1] == 0))
            if e.weights[k].sum() > 0:
                v = np.sum(e.weights[k] * r[feature.lex_binned_data[k]]) / e.weights[k].sum()
                log.append(("calibrated", abs(v) < 1e-9 * (1 + np.abs(r).max())))
        return r

    e.calc_parameters, e.calibrate_to_weighted_mean = calc, cal
    exc, _ = S.call(util.quiet, e.fit, c.X.copy(), c.y.copy())
    if exc is not None and not util.diverged(S, exc):
        raise exc
    for l, ok_ in log:
        S.ensure(l, ok_)
