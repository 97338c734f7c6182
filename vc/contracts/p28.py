"""Quantile regression: pinball loss, objective per bin, estimates stored at the right bins."""
import types

import numpy as np

from ..spec import bounded, contract
from . import p15, util

G = "generic_loss."
MODES = ["mquantile", "aquantile"]


def _est(S, mode, q):
    return util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED}, quantile=q)


def _data(S):
    n = S.dim("n", 1)
    y, p, w = S.array("y", n), S.array("p", n), S.array("w", n, 0)
    if not S.sym and "y" not in S.given:
        k = S.rng.random(n) < 0.4
        p[k] = y[k]
        S._rec("p", p)
    return n, y, p, w


def _pinball(S, q, y, p):
    d = y - p
    return S.ite(d < 0, (q - 1) * d, q * d)


@contract("P28", [G + "CBQuantileRegressor.quantile_costs", G + "CBQuantileRegressor.loss", G + "CBQuantileRegressor.costs"])
def pinball(S):
    n, y, p, w = _data(S)
    q = S.real("quantile", 0, 1, True, True)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    e = _est(S, S.choice("mode", MODES), q)
    l = e.loss(p, y, w)
    S.ensure("loss and costs are the same", S.eq(l, e.costs(p, y, w), 1e-12, 1e-12))
    S.ensure("weighted mean pinball loss", S.eq(l * W, S.sum(n, lambda i: S.at(w, i) * _pinball(S, q, S.at(y, i), S.at(p, i))), 1e-7, 1e-9))


@contract("P28", [G + "CBQuantileRegressor.quantile_costs"])
def non_negative(S):
    n, y, p, w = _data(S)
    q = S.real("quantile", 0, 1, True, True)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    l = S.mod("generic_loss").CBQuantileRegressor.quantile_costs(p, y, w, q)
    if S.sym:
        # per sample, then for the sum
        a, b, c = S.real("y0"), S.real("p0"), S.real("w0", 0)
        t = c * _pinball(S, q, a, b)
        S.ensure("lemma: pinball loss of a sample is not negative", t >= 0)
        S.ensure("lemma: zero exactly for a perfect prediction", S.iff(S.eq(t, 0), S.or_(S.eq(c, 0), S.eq(a, b))))
    S.ensure("not negative", l >= (0 if S.sym else -1e-12))
    k = S.int("k", 0)
    S.assume(k < n)
    S.hint(k)
    if not S.sym:
        perfect = bool(((w == 0) | (y == p)).all())
        S.ensure("zero exactly for a perfect prediction", (abs(l) < 1e-13) == perfect or (not perfect and l < 1e-9))


@contract("P28", [G + "CBQuantileRegressor.quantile_costs"])
def perfect(S):
    n, y, _, w = _data(S)
    q = S.real("quantile", 0, 1, True, True)
    S.assume(S.sum(n, lambda i: S.at(w, i)) > 0)
    S.ensure("perfect prediction, no loss", S.eq(S.mod("generic_loss").CBQuantileRegressor.quantile_costs(y, y, w, q), 0, 0, 1e-12))


@contract("P28", [G + "CBGenericLoss.objective_function", G + "model_multiplicative", G + "model_additive", G + "CBMultiplicativeQuantileRegressor.model", G + "CBAdditiveQuantileRegressor.model"])
def objective(S):
    n, y, p, w = _data(S)
    q = S.real("quantile", 0, 1, True, True)
    par = S.real("parameter", None if S.sym else -4.0, None if S.sym else 4.0)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(W > 0)
    mode = S.choice("mode", MODES)
    v = _est(S, mode, q).objective_function(par, p, y, w)

    def m(i):
        return par * S.at(p, i) if mode == "mquantile" else par + S.at(p, i)

    S.ensure("pinball loss of the prediction changed by the parameter", S.eq(v * W, S.sum(n, lambda i: S.at(w, i) * _pinball(S, q, S.at(y, i), m(i))), 1e-7, 1e-9))


@contract("P28", [G + "CBGenericLoss.optimization", G + "CBMultiplicativeQuantileRegressor.uncertainty", G + "CBAdditiveQuantileRegressor.uncertainty"])
def optimised(S):
    """the objective of exactly this bin is minimised from the neutral value"""
    n = S.dim("n", 1)
    y, p, w = S.array("y", n, 0), S.array("p", n), S.array("w", n, 0)
    mode = S.choice("mode", MODES)
    e = _est(S, mode, 0.3)
    g = S.mod("generic_loss")
    seen = {}
    x = S.real("optimum", None if S.sym else -3.0, None if S.sym else 3.0)

    def minimize(fun, x0, args=(), **k):
        seen.update(fun=fun, x0=x0, args=args)
        return types.SimpleNamespace(x=x, success=True, status=0, message="", fun=0.0)

    S.stub(g, "minimize", minimize)
    a, u = e.optimization(y, p, w)
    S.ensure("the optimum is the estimate", S.eq(a, x, 0, 0))
    par = S.real("parameter", None if S.sym else -3.0, None if S.sym else 3.0)
    S.assume(S.sum(n, lambda i: S.at(w, i)) > 0)
    args = seen["args"] if isinstance(seen["args"], tuple) else (seen["args"],)
    S.ensure("objective of the bin", S.eq(seen["fun"](par, *args), e.objective_function(par, p, y, w), 1e-9, 1e-12))
    x0 = seen["x0"]
    x0 = float(np.ravel(x0)[0]) if not S.sym else S.at(x0) if getattr(x0, "ndim", 1) == 0 else x0
    S.ensure("start at the neutral value", S.eq(x0, 1.0 if mode == "mquantile" else 0.0, 1e-12, 1e-12))
    f = g.uncertainty_gamma if mode == "mquantile" else g.uncertainty_gaussian
    S.ensure("uncertainty of the bin", S.eq(u, f(y, w), 1e-9, 1e-12))


@contract("P28", [G + "uncertainty_gamma", G + "uncertainty_gaussian"])
def uncertainties(S):
    g = S.mod("generic_loss")
    n = S.dim("n", 1)
    y, w = S.array("y", n, 0), S.array("w", n, 0)
    a = S.sum(n, lambda i: S.at(w, i) * S.at(y, i)) + 2
    u = g.uncertainty_gamma(y, w)
    S.ensure("multiplicative: width of the gamma posterior", S.and_(u > 0, S.eq(u * u, S.log(1 + a) - S.log(a), 1e-5, 1e-9)))
    v = g.uncertainty_gaussian(y, w)
    S.ensure("additive: positive and finite", S.and_(S.isfinite(v), v > 0))


contract("P28", [G + "CBQuantileRegressor._init_global_scale", G + "CBQuantileRegressor.quantile_global_scale"], sym=False, trials=100)(p15.quantile_scale)


@bounded("P28", [G + "CBGenericLoss.calc_parameters"], trials=1)
def every_pattern(S):
    """bounded: every assignment of at most 5 samples to at most 4 bins (one or two dimensions)"""
    import itertools

    g = S.mod("generic_loss")
    for mode in MODES:
        e = _est(S, mode, 0.4)
        calls = []

        def opt(y, yhat, w):
            calls.append((tuple(y), tuple(yhat), tuple(w)))
            return 2.0 + sum(y), 0.5 + sum(w)

        e.optimization = opt
        for nb, n in [(1, 1), (1, 3), (2, 3), (3, 4), (3, 5), (2, 1), (3, 2)]:
            B = nb + 1
            y = 1.0 + 2.0 ** np.arange(n)
            w = 0.25 * (1 + np.arange(n))
            link = 0.1 * np.arange(n)
            for lex in itertools.product(range(B), repeat=n):
                lex = np.array(lex)
                f = util.feature(S, bins=nb, lex=lex)
                e.weights = w
                del calls[:]
                v, u = e.calc_parameters(f, y, util.pred(S, link.copy()), None)
                if len(v) != B or len(u) != B:
                    S.ensure("one value per bin", False)
                    return
                for j in range(B):
                    k = lex == j
                    want = 2.0 + y[k].sum()
                    want = np.log(want) if mode == "mquantile" else want
                    if abs(v[j] - want) > 1e-9 or abs(u[j] - (0.5 + w[k].sum())) > 1e-9:
                        S._rec("bins", lex)
                        S.ensure("estimate and uncertainty at the position of their bin", False)
                        return
                    yh = np.exp(link[k]) if mode == "mquantile" else link[k]
                    got = sorted(zip(*[c for c in calls if len(c[0]) == k.sum() and (k.sum() == 0 or set(c[0]) == set(y[k]))][:1][0])) if any(len(c[0]) == k.sum() and set(c[0]) == set(y[k]) for c in calls) else None
                    if got is None or not np.allclose(np.array(got).reshape(-1, 3), np.array(sorted(zip(y[k], yh, w[k]))).reshape(-1, 3)):
                        S._rec("bins", lex)
                        S.ensure("samples of the bin with their predictions and weights", False)
                        return
    S.ensure("all patterns", True)


@bounded("P28", [G + "CBGenericLoss.calc_parameters"], trials=1)
def few_empty_bins(S):
    """bounded: up to 70 bins holding one sample each, except for every pair of bins (random triples for many bins)"""
    import itertools

    e = _est(S, "aquantile", 0.4)
    e.optimization = lambda y, yhat, w: (float(y.sum()), 0.5 + float(w.sum()))
    for nb in (7, 18, 35, 70):
        B = nb + 1
        pairs = list(itertools.combinations(range(B), 2)) if nb < 40 else [tuple(S.rng.choice(B, 3, replace=False)) for _ in range(300)]
        for empty in pairs:
            lex = np.array([j for j in range(B) if j not in empty])
            y = 1.0 + lex
            e.weights = np.ones(len(lex))
            v, u = e.calc_parameters(util.feature(S, bins=nb, lex=lex), y, util.pred(S, np.zeros(len(lex))), None)
            want = np.zeros(B)
            want[lex] = y
            if len(v) != B or np.abs(v - want).max() > 1e-9 or np.abs(u - (0.5 + (want > 0))).max() > 1e-9:
                S._rec("bins", lex)
                S.ensure("estimate and uncertainty at the position of their bin", False)
                return
    S.ensure("all patterns", True)


@bounded("P28", [G + "CBGenericLoss.calc_parameters", G + "CBGenericLoss.optimization"], trials=120)
def estimates(S):
    """bounded: estimates of random bins, empty bins neutral, the estimate is optimal in its bin"""
    rng = S.rng
    mode = S.choice("mode", MODES)
    q = S.real("quantile", 0.05, 0.95)
    e = _est(S, mode, q)
    nb = S.int("nb", 1, 5)
    n = S.int("n", 1, 25)
    lex = S._rec("lex", rng.integers(0, nb + 1, n))
    y = S._rec("y", rng.poisson(2, n) * (rng.random(n) < 0.7) * 1.0)
    w = S._rec("w", rng.uniform(0.2, 2, n))
    link = S._rec("link", rng.normal(0, 0.5, n))
    e.weights = w
    f = util.feature(S, bins=nb, lex=lex)
    v, u = util.quiet(e.calc_parameters, f, y, util.pred(S, link.copy()), None)
    S.ensure("one value per bin", len(v) == nb + 1 and len(u) == nb + 1)
    for j in range(nb + 1):
        k = lex == j
        if not k.any():
            S.ensure("empty bin is neutral", v[j] == 0.0)
            S.ensure("default uncertainty", abs(u[j] - (np.sqrt(np.log(1.5)) if mode == "mquantile" else 10.0)) < 1e-9)
            continue
        S.ensure("finite estimate", bool(np.isfinite(v[j]) and np.isfinite(u[j]) and u[j] > 0))
        par = np.exp(v[j]) if mode == "mquantile" else v[j]
        yh = np.exp(link[k]) if mode == "mquantile" else link[k]

        def cost(x):
            m = x * yh if mode == "mquantile" else x + yh
            d = y[k] - m
            return np.sum(w[k] * np.where(d < 0, (q - 1) * d, q * d)) / np.sum(w[k])

        # the numerical optimisation is not exact, but it starts at the neutral value
        S.ensure("not worse than the neutral value", cost(par) <= cost(1.0 if mode == "mquantile" else 0.0) + 1e-4)


@bounded("P28", [G + "CBMultiplicativeQuantileRegressor", G + "CBAdditiveQuantileRegressor"], trials=25)
def trainings(S):
    """bounded: whole trainings"""
    mode = S.choice("mode", MODES)
    q = S.real("quantile", 0.1, 0.9)
    c = util.Case(S, mode)
    S._rec("rows", c.n)
    e = util.make(S, mode, c.groups, c.props, **c.kw(S, quantile=q, maximal_iterations=2))
    exc, _ = S.call(util.quiet, e.fit, c.X.copy(), c.y.copy())
    if exc is not None:
        if util.diverged(S, exc):
            return
        raise exc
    p = util.quiet(e.predict, c.X.copy())
    w = c.X["w"].values if c.weight_column else np.ones(c.n)
    d = c.y - p
    S.ensure("predictions are finite", bool(np.isfinite(p).all()))
    S.ensure("reported loss is the pinball loss of the predictions", np.isclose(e.insample_loss_, np.sum(w * np.where(d < 0, (q - 1) * d, q * d)) / w.sum(), 1e-5, 1e-6))
