"""Shared pieces of the contracts: estimators, binned data, trainings of the real package."""
import warnings

import numpy as np
import pandas as pd

MULT = ("poisson", "nbinom")
MODES = ("poisson", "nbinom", "classifier", "location", "locpoisson")
ALLMODES = MODES + ("exponential", "nbinomc", "gbs", "mquantile", "aquantile")


def make(S, mode, groups, props=None, **kw):
    """an estimator of the package (kw: constructor arguments)"""
    if mode == "poisson":
        return S.mod("regression").CBPoissonRegressor(feature_groups=groups, feature_properties=props, **kw)
    if mode == "nbinom":
        return S.mod("regression").CBNBinomRegressor(feature_groups=groups, feature_properties=props, **kw)
    if mode == "classifier":
        return S.mod("classification").CBClassifier(feature_groups=groups, feature_properties=props, **kw)
    if mode == "location":
        return S.mod("location").CBLocationRegressor(feature_groups=groups, feature_properties=props, **kw)
    if mode == "locpoisson":
        return S.mod("location").CBLocPoissonRegressor(feature_groups=groups, feature_properties=props, **kw)
    if mode == "nbinomc":
        return S.mod("nbinom").CBNBinomC("mu", feature_groups=groups, feature_properties=props, **kw)
    if mode == "gbs":
        return S.mod("GBSregression").CBGBSRegressor(feature_groups=groups, feature_properties=props, **kw)
    if mode == "mquantile":
        return S.mod("generic_loss").CBMultiplicativeQuantileRegressor(quantile=kw.pop("quantile", 0.6), feature_groups=groups, feature_properties=props, **kw)
    if mode == "aquantile":
        return S.mod("generic_loss").CBAdditiveQuantileRegressor(quantile=kw.pop("quantile", 0.6), feature_groups=groups, feature_properties=props, **kw)
    if mode == "exponential":
        ext = kw.pop("external_groups", None)
        if ext is None:
            ext = [groups[0]]
        return S.mod("price").CBExponential("price", groups, ext, feature_properties=props, **kw)
    raise ValueError(mode)


def target(rng, mode, n, mu=None):
    mu = np.full(n, 3.0) if mu is None else mu
    if mode == "classifier":
        return (rng.random(n) < 0.2 + 0.6 * (mu > np.median(mu))).astype(float)
    if mode in ("location", "gbs", "aquantile"):
        return rng.normal(0, 2, n) + mu - 3
    return rng.poisson(mu).astype(float)


class Case:
    """random training data for one mode; everything is reproducible from the seed of S"""

    def __init__(self, S, mode, n=None, weights=None, prior=None, missing=True, ncols=3, floats=True, dataframe=True):
        rng = S.rng
        self.mode = mode
        self.n = n = n or int(rng.integers(8, 60))
        cols = {}
        mu = np.full(n, 2.0)
        for k in range(ncols):
            nb = int(rng.integers(1, 7))
            x = rng.integers(0, nb, n).astype(float)
            mu = mu * np.exp(0.5 * rng.normal(size=nb))[x.astype(int)]
            if missing and rng.random() < 0.6:
                x[rng.random(n) < 0.2] = rng.choice([np.nan, -1.0])
            cols["abcdefg"[k]] = x
        mu = np.clip(mu, 0.05, 40)
        self.mu = mu
        self.y = target(rng, mode, n, mu)
        if mode == "classifier" and n > 1:
            self.y[0], self.y[1] = 0.0, 1.0
        self.weight_column = None
        if weights if weights is not None else rng.random() < 0.5:
            w = rng.uniform(0.2, 3, n)
            if rng.random() < 0.5:
                w[rng.random(n) < 0.2] = 0.0
                w[0] = 1.0
            cols["w"] = w
            self.weight_column = "w"
        self.prior = None
        if prior if prior is not None else (rng.random() < 0.3 and mode not in ("nbinomc", "gbs")):
            p = np.clip(mu * rng.uniform(0.5, 2, n), 0.01, 30)
            if mode == "classifier":
                p = p / (1 + p)
            if rng.random() < 0.5:
                p[rng.random(n) < 0.15] = np.nan
                p[0] = p[np.isfinite(p)][0] if np.isfinite(p).any() else 0.5
            cols["prior"] = p
            self.prior = "prior"
        if mode == "nbinomc":
            cols["mu"] = mu
        if mode == "exponential":
            pr = rng.uniform(0.5, 1.0, n)
            if rng.random() < 0.5:
                pr[rng.random(n) < 0.2] = np.nan
            cols["price"] = pr
        self.X = pd.DataFrame(cols)
        self.features = ["abcdefg"[k] for k in range(ncols)]
        g = [[f] for f in self.features]
        self.groups = [self.features[0], self.features[1]] if ncols > 1 else [self.features[0]]
        if ncols > 2 and rng.random() < 0.7:
            self.groups = [self.features[0], self.features[1], (self.features[1], self.features[2])]
        if rng.random() < 0.3:
            self.groups = self.groups[::-1]
        fl = S.mod("flags")
        base = [fl.IS_CONTINUOUS, fl.IS_UNORDERED, fl.IS_ORDERED]
        extra = [0, fl.HAS_MISSING, fl.MISSING_NOT_LEARNED]
        self.props = {f: int(rng.choice(base)) | int(rng.choice(extra)) for f in self.features}

    def kw(self, S, **over):
        rng = S.rng
        d = dict(maximal_iterations=int(rng.integers(1, 6)), weight_column=self.weight_column, prior_prediction_column=self.prior)
        if self.mode == "gbs":
            d.pop("prior_prediction_column")
        if self.mode == "nbinom":
            d.update(a=1.2, c=0.1)
        d.update(over)
        return d

    def fit(self, S, **over):
        est = make(S, self.mode, self.groups, self.props, **self.kw(S, **over))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            est.fit(self.X.copy(), self.y.copy())
        return est


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def diverged(S, e):
    return type(e).__name__ == "ConvergenceError"


def feature(S, group=("a",), prop=None, ftype=None, bins=None, lex=None, wsum=None):
    """a real Feature object with its binned data set; bins: number(s) of finite bins"""
    f = S.mod("features")
    prop = (S.mod("flags").IS_UNORDERED,) * len(group) if prop is None else prop
    F = f.Feature(f.FeatureID(feature_group=tuple(group), feature_type=ftype), prop, None)
    if bins is not None:
        bins = [bins] if not isinstance(bins, (list, tuple)) else list(bins)
        if S.sym:
            from .. import arr

            F.n_multi_bins_finite = arr.asarray(bins)
        else:
            F.n_multi_bins_finite = np.asarray(bins)
    F.lex_binned_data = lex
    F.bin_weightsums = wsum
    return F


def pred(S, link):
    return S.mod("base").CBLinkPredictionsFactors(link)


def binsum(S, n, lex, j, fn):
    """sum of fn(i) over the samples i of bin j"""
    return S.sum(n, lambda i: S.ite(S.eq(S.at(lex, i), j, 0, 0), fn(i), 0.0))
