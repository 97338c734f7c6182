"""Every smoother of the package with admissible random bins."""
import numpy as np


def one_dim(S):
    o, m = S.mod("smoothing.onedim"), S.mod("smoothing.meta_smoother")
    x = S.mod("smoothing.extrapolate")
    R = m.RegressionType
    return {
        "values": lambda r: o.BinValuesSmoother(),
        "prior": lambda r: o.RegularizeToPriorExpectationSmoother(float(r.normal()), threshold=float(r.uniform(0.5, 4))),
        "one": lambda r: o.RegularizeToOneSmoother(threshold=float(r.uniform(0.5, 4))),
        "mean": lambda r: o.WeightedMeanSmoother(),
        "mean prior": lambda r: o.WeightedMeanSmoother(prior_prediction=float(r.normal())),
        "neighbours": lambda r: o.WeightedMeanSmootherNeighbors(),
        "orthogonal": lambda r: o.OrthogonalPolynomialSmoother(),
        "seasonal": lambda r: o.SeasonalSmoother(order=int(r.integers(1, 4)), offset_tozero=bool(r.random() < 0.5)),
        "lasso": lambda r: o.SeasonalLassoSmoother(min_days=int(r.choice([2, 300]))),
        "meta": lambda r: o.PriorExpectationMetaSmoother(o.BinValuesSmoother(), float(r.normal())),
        "spline": lambda r: o.UnivariateSplineSmoother(k=int(r.integers(1, 4))),
        "poly": lambda r: o.PolynomialSmoother(k=int(r.integers(0, 4))),
        "linear": lambda r: o.LinearSmoother(fallback_when_negative_slope=bool(r.random() < 0.5)),
        "lsq": lambda r: o.LSQUnivariateSpline([2.5], degree=int(r.integers(1, 4))),
        "isotonic": lambda r: o.IsotonicRegressor(increasing=[True, False, "auto"][int(r.integers(0, 3))]),
        "extrapolate": lambda r: x.LinearExtrapolator(),
        "normalised": lambda r: m.NormalizationSmoother(o.BinValuesSmoother()),
        "cut": lambda r: m.RegressionTypeSmoother(o.OrthogonalPolynomialSmoother(), [R.discontinuous, R.interpolating, R.extrapolating][int(r.integers(0, 3))]),
        "normalised cut": lambda r: m.NormalizationRegressionTypeSmoother(o.LinearSmoother(), [R.discontinuous, R.interpolating, R.extrapolating][int(r.integers(0, 3))]),
        "section": lambda r: m.SectionSmoother(float(r.integers(0, 6)), o.LinearSmoother(), o.BinValuesSmoother()) if r.random() < 0.5 else m.SectionSmoother(float(r.integers(0, 6)), x.LinearExtrapolator(), o.LinearSmoother()),
    }


def multi_dim(S):
    d, m, o = S.mod("smoothing.multidim"), S.mod("smoothing.meta_smoother"), S.mod("smoothing.onedim")
    R = m.RegressionType
    return {
        "values": lambda r, k: d.BinValuesSmoother(),
        "prior": lambda r, k: d.RegularizeToPriorExpectationSmoother(float(r.normal()), threshold=float(r.uniform(0.5, 4))),
        "one": lambda r, k: d.RegularizeToOneSmoother(threshold=float(r.uniform(0.5, 4))),
        "mean": lambda r, k: d.WeightedMeanSmoother(),
        "mean prior": lambda r, k: d.WeightedMeanSmoother(prior_prediction=float(r.normal())),
        "meta": lambda r, k: d.PriorExpectationMetaSmoother(d.BinValuesSmoother(), float(r.normal())),
        "group": lambda r, k: d.GroupBySmoother(o.BinValuesSmoother(), k),
        "group cb": lambda r, k: d.GroupBySmootherCB(o.WeightedMeanSmoother(), k),
        "neutral": lambda r, k: d.Neutralize2DMetaSmoother(d.BinValuesSmoother()),
        "cut": lambda r, k: m.RegressionTypeSmoother(d.WeightedMeanSmoother(), [R.discontinuous, R.interpolating, R.extrapolating][int(r.integers(0, 3))]),
        "normalised cut": lambda r, k: m.NormalizationRegressionTypeSmoother(d.WeightedMeanSmoother(), [R.discontinuous, R.interpolating, R.extrapolating][int(r.integers(0, 3))]),
    }


def bins(rng, ndim, lo=1, hi=9, empty=True):
    """bin centres in lexicographic order, weight sums, uncertainties and values"""
    shape = [int(rng.integers(lo, hi if ndim == 1 else 5)) for _ in range(ndim)]
    X = np.stack(np.meshgrid(*[np.arange(k) for k in shape], indexing="ij"), -1).reshape(-1, ndim).astype(float)
    n = len(X)
    w = rng.uniform(0.5, 20, n)
    if empty and rng.random() < 0.4:
        w[rng.random(n) < 0.3] = 0.0
        w[int(rng.integers(0, n))] = 2.0
    u = rng.uniform(0.05, 1.0, n)
    y = rng.normal(0, 1, n) * rng.choice([0.1, 1.0, 3.0]) + rng.choice([0.0, 1.0])
    return shape, np.c_[X, w, u], y
