"""Samples with weight zero have no influence on what is learned."""
import numpy as np

from ..spec import bounded, contract
from . import util

FEAT = {"poisson": "regression.CBPoissonRegressor", "nbinom": "regression.CBNBinomRegressor", "classifier": "classification.CBClassifier",
        "location": "location.CBLocationRegressor", "locpoisson": "location.CBLocPoissonRegressor", "gbs": "GBSregression.CBGBSRegressor"}
RANGE = {"poisson": (0, None, False), "nbinom": (0, None, False), "locpoisson": (0, None, False), "classifier": (0, 1, True), "location": (None, None, False), "gbs": (None, None, False)}


def _swap(S, name, n, w, a, **kw):
    """a with other values wherever the weight is zero"""
    other = S.array(name + "_other", n, **kw)
    return S.pick(n, lambda i: S.eq(S.at(w, i), 0, 0, 0), other, a)


def _data(S, mode):
    n, nb = S.dim("n", 1, big=1000), S.dim("nb", 0, big=100)
    w = S.array("w", n, 0)
    if not S.sym and "w" not in S.given:
        w[S.rng.random(n) < 0.5] = 0.0
        S._rec("w", w)
    lo, hi, ints = RANGE[mode]
    y = S.array("y", n, lo, hi, ints=ints)
    b = dict(lo=None, hi=None) if S.sym else dict(lo=-5.0, hi=5.0)
    link = S.array("link", n, **b)
    lex = S.array("lex", n, 0, nb, dtype="i")
    return n, nb, w, (lex, y, link), (
        _swap(S, "lex", n, w, lex, lo=0, hi=nb, dtype="i"),
        _swap(S, "y", n, w, y, lo=lo, hi=hi, ints=ints),
        _swap(S, "link", n, w, link, **b),
    )


def _same(S, label, n, a, b):
    S.ensure(label + ": same length", S.eq(S.len(a), S.len(b), 0, 0))
    S.ensure_forall(label, n, lambda j: S.eq(S.at(a, j), S.at(b, j), 1e-9, 1e-9))


def _estimates(S, mode, kw=None):
    n, nb, w, d1, d2 = _data(S, mode)
    got = []
    if S.sym and mode in ("poisson", "nbinom"):
        # the posterior depends on the two sums only (P12)
        S.stub(S.mod("regression"), "_calc_factors_and_uncertainties", lambda alpha, beta, link_func: (alpha, beta))
    if S.sym and mode == "classifier":
        S.stub(S.mod("base"), "gaussian_matching_by_quantiles", lambda dist, link_func, perc1, perc2: dist)
        S.patch(S.mod("classification").scipy.stats, "beta", lambda a, b: (a, b))
    again = S.twin(lambda i: S.eq(S.at(w, i), 0, 0, 0))
    for lex, y, link in (d1, d2):
        if got:
            again()
        e = util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED}, **(kw or {}))
        e.weights = w
        f = util.feature(S, bins=nb, lex=lex)
        p = util.pred(S, link)
        if mode == "location" and S.sym:
            pre = S.array("var", nb + 1, 0, lo_open=True) if not got else got[0][0]
        elif mode == "locpoisson" and S.sym:
            # both are weighted statistics of the samples (`prefit_*` below)
            pre = (None, S.array("bincount", nb + 1, 0), S.real("global_std", 0, lo_open=True)) if not got else got[0][0]
        else:
            if mode in ("location", "locpoisson") and float(np.sum(w)) <= 0:
                return
            pre = util.quiet(e.precalc_parameters, f, y, p)
        got.append((pre, util.quiet(e.calc_parameters, f, y, p, pre)))
    (_, (v1, u1)), (_, (v2, u2)) = got
    _same(S, "estimates", nb + 1, v1, v2)
    _same(S, "uncertainties", nb + 1, u1, u2)


def _register(mode):
    kw = dict(a=1.3, c=0.2) if mode == "nbinom" else None

    def f(S):
        _estimates(S, mode, kw)

    f.__name__ = "bins_" + mode
    f.__doc__ = "estimates and uncertainties of all bins"
    fns = [FEAT[mode] + ".calc_parameters"]
    return contract("P15", fns)(f)


for _m in FEAT:
    _register(_m)


@contract("P15", ["location.CBLocationRegressor.precalc_parameters", "location.precalc_variance_y"])
def prefit_location(S):
    """variances of bins with weight"""
    n, nb, w, d1, d2 = _data(S, "location")
    S.assume(S.sum(n, lambda i: S.at(w, i)) > 0)
    out = []
    again = S.twin(lambda i: S.eq(S.at(w, i), 0, 0, 0))
    for lex, y, link in (d1, d2):
        if out:
            again()
        e = util.make(S, "location", ["a"], {"a": S.mod("flags").IS_UNORDERED})
        e.weights = w
        out.append(e.precalc_parameters(util.feature(S, bins=nb, lex=lex), y, None))
    _same(S, "variances", nb + 1, *out)


@contract("P15", ["base.CyclicBoostingBase.loss"])
def loss(S):
    n, nb, w, (_, y, p), (_, y2, p2) = _data(S, "location")
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    e = util.make(S, "location", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    l1, l2 = e.loss(p, y, w), e.loss(p2, y2, w)
    S.ensure("weighted mean of the squared deviations", S.eq(l1 * W, S.sum(n, lambda i: S.at(w, i) * (S.at(p, i) - S.at(y, i)) * (S.at(p, i) - S.at(y, i))), 1e-7, 1e-9))
    S.ensure("zero-weight samples do not count", S.eq(l1, l2, 1e-9, 1e-9))


@contract("P15", ["GBSregression.CBGBSRegressor.loss", "GBSregression.CBGBSRegressor._init_global_scale"])
def gbs(S):
    n, nb, w, (_, y, p), (_, y2, p2) = _data(S, "gbs")
    W = S.sum(n, lambda i: S.at(w, i))
    V = S.sum(n, lambda i: S.ite(S.eq(S.at(y, i), 0, 0, 0), 0.0, S.at(w, i)))
    S.assume(S.and_(W > 0, V > 0))
    e = util.make(S, "gbs", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    S.ensure("zero-weight samples do not count", S.eq(e.loss(p, y, w), e.loss(p2, y2, w), 1e-9, 1e-9))
    e._init_global_scale(None, y)
    g = e.global_scale_link_
    S.ensure("weighted mean of the targets", S.eq(g * W, S.sum(n, lambda i: S.at(w, i) * S.at(y, i)), 1e-7, 1e-7))
    e._init_global_scale(None, y2)
    S.ensure("global scale without zero-weight samples", S.eq(g, e.global_scale_link_, 1e-9, 1e-9))


@contract("P15", ["base.CyclicBoostingBase._init_global_scale"])
def scale(S):
    """global scale of every mode with the common initialisation"""
    mode = S.choice("mode", ["poisson", "location", "classifier"])
    n, nb, w, (_, y, _), (_, y2, _) = _data(S, mode)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    prior = S.choice("prior", [False, True])
    lim = {"poisson": (1e-6, 1e6), "location": (-1e6, 1e6), "classifier": (1e-6, 1 - 1e-6)}[mode]
    out = []
    if prior:
        q = S.array("prior", n, *lim)
        q2 = _swap(S, "prior", n, w, q, lo=lim[0], hi=lim[1])
        if S.sym:
            sides = S.and_(S.sum(n, lambda i: S.at(w, i) * (S.at(q, i) - lim[0])) >= 0, S.sum(n, lambda i: S.at(w, i) * (lim[1] - S.at(q, i))) >= 0)
            S.ensure("lemma: a weighted mean lies between the bounds", sides)
            S.assume(sides)
    if not S.sym and mode == "classifier" and float(np.sum(w * y) / np.sum(w)) > 0.998:
        return
    if S.sym and mode == "classifier":
        S.assume(S.sum(n, lambda i: S.at(w, i) * S.at(y, i)) < 0.998 * W)
    for yy, qq in ((y, q if prior else None), (y2, q2 if prior else None)):
        e = util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED}, **(dict(prior_prediction_column="prior") if prior else {}))
        e.weights = w
        X = S.frame({"prior": qq}) if prior else None
        util.quiet(e._init_global_scale, X, yy)
        out.append(e)
    m = S.sum(n, lambda i: S.at(w, i) * S.at(y, i)) / W + 0.001
    S.ensure("weighted mean of the targets in link space", S.eq(out[0].global_scale_link_, out[0].link_func(m), 1e-7, 1e-7))
    S.ensure("zero-weight samples do not count", S.eq(out[0].global_scale_link_, out[1].global_scale_link_, 1e-9, 1e-9))
    if prior:
        r = S.sum(n, lambda i: S.at(w, i) * S.at(q, i)) / W
        S.ensure("offset to the weighted mean of the prior prediction", S.eq(out[0].prior_pred_link_offset_, out[0].global_scale_link_ - out[0].link_func(r), 1e-7, 1e-7))
        S.ensure("offset without zero-weight samples", S.eq(out[0].prior_pred_link_offset_, out[1].prior_pred_link_offset_, 1e-9, 1e-9))


@contract("P15", ["generic_loss.CBQuantileRegressor.quantile_costs", "generic_loss.CBQuantileRegressor.loss", "generic_loss.CBQuantileRegressor.costs", "generic_loss.CBGenericLoss.objective_function"], budget=150)
def quantile_loss(S):
    mode = S.choice("mode", ["mquantile", "aquantile"])
    n, nb, w, (_, y, p), (_, y2, p2) = _data(S, "location")
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    q = S.real("quantile", 0, 1, True, True)
    par = S.real("parameter", None if S.sym else -5.0, None if S.sym else 5.0)
    e = util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED}, quantile=q)
    l1 = e.loss(p, y, w)

    def term(i):
        d = S.at(y, i) - S.at(p, i)
        return S.at(w, i) * S.ite(d < 0, (q - 1) * d, q * d)

    S.ensure("weighted mean of the pinball loss", S.eq(l1 * W, S.sum(n, term), 1e-7, 1e-9))
    S.ensure("loss without zero-weight samples", S.eq(l1, e.loss(p2, y2, w), 1e-9, 1e-9))
    S.ensure("objective of a bin without zero-weight samples", S.eq(e.objective_function(par, p, y, w), e.objective_function(par, p2, y2, w), 1e-9, 1e-9))


@contract("P15", ["generic_loss.uncertainty_gamma", "generic_loss.uncertainty_gaussian"])
def quantile_uncertainty(S):
    g = S.mod("generic_loss")
    n, nb, w, (_, y, _), (_, y2, _) = _data(S, "poisson")
    again = S.twin(lambda i: S.eq(S.at(w, i), 0, 0, 0))
    a, c = g.uncertainty_gaussian(y, w), g.uncertainty_gamma(y, w)
    again()
    b, d = g.uncertainty_gaussian(y2, w), g.uncertainty_gamma(y2, w)
    S.ensure("gamma", S.eq(c, d, 1e-9, 1e-9))
    S.ensure("gaussian", S.eq(a, b, 1e-9, 1e-9))
    S.ensure("finite, also without any weight", S.and_(S.isfinite(a), a > 0))


@contract("P15", ["generic_loss.CBQuantileRegressor._init_global_scale", "generic_loss.CBQuantileRegressor.quantile_global_scale", "utils.continuous_quantile_from_discrete_pdf"], sym=False, trials=200)
def quantile_scale(S):
    """bounded: the weighted quantile of the targets"""
    rng = S.rng
    mode = S.choice("mode", ["mquantile", "aquantile"])
    n = S.int("n", 1, 30)
    w = rng.uniform(0.1, 2, n).round(1)
    w[rng.random(n) < 0.4] = 0.0
    w[0] = 1.0
    y = rng.integers(1, 6, n).astype(float)
    q = S.real("quantile", 0.01, 0.99)
    y2 = np.where(w == 0, rng.integers(1, 9, n), y)
    pr = rng.uniform(1, 4, n)
    pr2 = np.where(w == 0, rng.uniform(1, 9, n), pr)
    import pandas as pd

    out = []
    for yy, pp in ((y, pr), (y2, pr2)):
        e = util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED}, quantile=q, prior_prediction_column="prior")
        e.weights = w
        util.quiet(e._init_global_scale, pd.DataFrame({"prior": pp}), yy)
        out.append((float(e.global_scale_link_), float(e.prior_pred_link_offset_)))
    S.ensure("global scale", np.isclose(out[0][0], out[1][0], 1e-9, 1e-9))
    S.ensure("offset of the prior prediction", np.isclose(out[0][1], out[1][1], 1e-9, 1e-9))


@contract("P15", ["base.CyclicBoostingBase._init_weight_column", "base.CyclicBoostingBase._update_loss"])
def weights_used(S):
    """the weights of the weight column are the ones used"""
    n = S.dim("n", 1)
    w, y, p = S.array("w", n, 0), S.array("y", n), S.array("p", n)
    given = S.choice("weight column", [False, True])
    e = util.make(S, "location", ["a"], {"a": S.mod("flags").IS_UNORDERED}, **(dict(weight_column="w") if given else {}))
    e._init_weight_column(S.frame({"w": w, "a": y}))
    S.ensure("one weight per sample", S.eq(S.len(e.weights), n, 0, 0))
    S.ensure_forall("weights", n, lambda i: S.eq(S.at(e.weights, i), S.at(w, i) if given else 1.0, 0, 0))
    W = S.sum(n, lambda i: S.at(w, i) if given else 1.0)
    S.assume(W > 0)
    e.insample_loss_ = S.real("previous loss", 0, lo_open=True)
    e.iteration_, e.initial_loss_, e.diverging = 0, S.real("initial loss", 0), 0
    util.quiet(e._update_loss, p, y)
    S.ensure("loss uses these weights", S.eq(e.insample_loss_ * W, S.sum(n, lambda i: (S.at(w, i) if given else 1.0) * (S.at(p, i) - S.at(y, i)) * (S.at(p, i) - S.at(y, i))), 1e-7, 1e-9))


@bounded("P15", [c for c in FEAT.values()], trials=100)
def trainings(S):
    """bounded: whole trainings with other targets, bins and prior predictions of the zero-weight samples"""
    mode = S.choice("mode", ["poisson", "nbinom", "classifier", "location", "locpoisson", "gbs"])
    c = util.Case(S, mode, weights=True, missing=False, n=int(S.rng.integers(20, 60)))
    S._rec("rows", c.n)
    rng = S.rng
    X, y = c.X, c.y
    z = rng.random(c.n) < 0.3
    z[:2] = False
    # every bin keeps a sample with weight, so that the bins stay the same
    X.loc[z, "w"] = 0.0
    for f in c.features:
        for b in set(X[f]):
            k = np.flatnonzero((X[f] == b).values)
            if not (X["w"].values[k] > 0).any():
                X.loc[k[0], "w"] = 1.0
    z = X["w"].values == 0
    if not z.any() or not (y[~z] != 0).any():
        return
    X2, y2 = X.copy(), y.copy()
    y2[z] = rng.permutation(y)[z] if mode == "classifier" else rng.permutation(y)[z] + rng.integers(0, 3, z.sum())
    for f in c.features:
        X2.loc[z, f] = rng.choice(X[f].values, z.sum())
    if c.prior:
        X2.loc[z, "prior"] = rng.choice(X["prior"].values, z.sum())
    kw = c.kw(S)
    kw["maximal_iterations"] = min(kw["maximal_iterations"], 3)
    res = []
    for A, b in ((X, y), (X2, y2)):
        e = util.make(S, mode, c.groups, c.props, **kw)
        exc, _ = S.call(util.quiet, e.fit, A.copy(), b.copy())
        if exc is not None:
            if util.diverged(S, exc):
                return
            raise exc
        res.append(e)
    a, b = res
    S.ensure("global scale", np.isclose(a.global_scale_link_, b.global_scale_link_, 1e-9, 1e-9))
    tol = 1e-7
    S.ensure("loss", np.isclose(a.insample_loss_, b.insample_loss_, tol, tol))
    for f, g in zip(a.features, b.features):
        S.ensure("factors", len(f.factors_link) == len(g.factors_link) and np.allclose(f.factors_link, g.factors_link, 1e-6, 1e-6))
