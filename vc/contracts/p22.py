"""Nothing passed in by the caller is changed."""
import numpy as np
import pandas as pd

from ..spec import bounded, contract, functions_of
from . import p01, p04, p05, p06, p08, p12, p13, p14, p15, p17, p18, p20, p21, p24, p25, p27, p28, util, zoo

B = "base.CyclicBoostingBase."


class _Frame(object):
    """runs another contract without its obligations, remembering the arrays it makes as inputs"""

    def __init__(self, S, skip=()):
        self._S, self._skip, self._seen = S, skip, []

    def __getattr__(self, name):
        return getattr(self._S, name)

    def _keep(self, name, a, n=None):
        if not any(name.startswith(k) for k in self._skip):
            self._seen = [t for t in self._seen if t[0] != name] + [(name, a, self._S.copy(a), n)]
        return a

    def array(self, name, shape, *a, **k):
        r = self._S.array(name, shape, *a, **k)
        return self._keep(name, r, shape)

    def _rec(self, name, v):
        r = self._S._rec(name, v)
        return self._keep(name, r, r.shape) if isinstance(r, np.ndarray) else r

    def frame(self, cols):
        r = self._S.frame(cols)
        for k in cols:
            self._seen.append(("column " + str(k), (r, k), self._S.copy(cols[k]), None))
        return r

    def ensure(self, label, cond):
        pass

    def ensure_forall(self, label, n, fn, lo=0):
        pass

    def ensure_forall_by(self, label, n, args, prem, concl):
        pass

    def cover(self, label):
        pass

    def finish(self):
        S = self._S
        for name, a, old, n in self._seen:
            if isinstance(a, tuple):
                S.ensure("columns still there", a[1] in a[0].columns)
                a = a[0][a[1]].values
                n = S.shape(old)[0] if S.sym else len(old)
            dims = n if isinstance(n, tuple) else (n,)

            def same(*i):
                x, z = S.at(a, *i), S.at(old, *i)
                return S.or_(S.and_(S.isnan(x), S.isnan(z)), S.eq(x, z, 0, 0))

            S.ensure_forall("%s unchanged" % name.rstrip("0123456789"), dims if len(dims) > 1 else dims[0], same)


def _framed(fn, functions, name=None, skip=(), **opts):
    def run(S):
        F = _Frame(S, skip)
        fn(F)
        F.finish()

    run.__name__ = name or fn.__module__.split(".")[-1] + "_" + fn.__name__
    run.__doc__ = "frame condition of " + (fn.__doc__ or fn.__name__).strip()
    opts.setdefault("trials", 60)
    contract("P22", functions, **opts)(run)


T = "binning.bin_number_transformer.BinNumberTransformer.transform"
for k in ("continuous_frame", "ordered_magic_frame", "unordered_frame", "continuous_matrix", "discrete_matrix"):
    _framed(getattr(p05, k), [T], assumes=p05.ASM)
_framed(p01.decomposition, [B + "predict", B + "predict_extended"], assumes=p01.GROUPS)
_framed(p01.contributions, [B + "get_feature_contributions"], assumes=p01.GROUPS)
_framed(p01.price_model, ["price.CBExponential.predict", "price.CBExponential.predict_extended"])
_framed(p01.prior_offset, [B + "predict", B + "_get_prior_predictions"])
_framed(p04.contribution, [B + "_pred_feature"], assumes=p04.DIMS)
_framed(p04.look_up_1d, ["smoothing.onedim.PredictingBinValueMixin.predict"])
_framed(p04.look_up_nd, ["smoothing.multidim.PredictingBinValueMixin.predict"], assumes=p04.DIMS)
_framed(p04.prior, [B + "_get_prior_predictions"])
_framed(p12.poisson, ["regression.CBPoissonRegressor.calc_parameters"])
_framed(p12.nbinom, ["regression.CBNBinomRegressor.calc_parameters"])
_framed(p13.bin_values, ["classification.CBClassifier.calc_parameters"])
_framed(p13.boosting_weights, ["classification.boost_weights"])
_framed(p13.probabilities, ["classification.CBClassifier.predict_proba"])
_framed(p14.variance, ["location.precalc_variance_y"])
_framed(p14.location, ["location.CBLocationRegressor.calc_parameters"])
_framed(p14.location_prefit, ["location.CBLocationRegressor.precalc_parameters"])
_framed(p14.locpoisson, ["location.CBLocPoissonRegressor.calc_parameters"])
_framed(p15.scale, [B + "_init_global_scale"])
_framed(p15.loss, [B + "loss"])
_framed(p15.weights_used, [B + "_init_weight_column", B + "_update_loss"])
_framed(p15.gbs, ["GBSregression.CBGBSRegressor.loss", "GBSregression.CBGBSRegressor._init_global_scale"])
_framed(p28.pinball, ["generic_loss.CBQuantileRegressor.quantile_costs", "generic_loss.CBQuantileRegressor.loss"])
_framed(p28.objective, ["generic_loss.CBGenericLoss.objective_function"])
_framed(p20.prior, ["utils.regularize_to_prior_expectation"])
_framed(p20.mean, ["utils.regularize_to_error_weighted_mean"])
_framed(p20.mean_prior, ["utils.regularize_to_error_weighted_mean"])
_framed(p08.lexicographic, ["utils.multidim_binnos_to_lexicographic_binnos"], assumes=p08.DIMS)
_framed(p08.finite_rows, ["utils.slice_finite_semi_positive"])
_framed(p06.reduce_end, ["binning.ecdf_transformer.reduce_cdf_and_boundaries_to_nbins"])
_framed(p06.spacing, ["binning._utils.minimal_difference"])
_framed(p14.generic, ["base.calc_factors_generic"])
_framed(p14.intercept, ["location.calc_parameters_intercept"])
_framed(p14.calibration, ["location.CBLocationRegressor.calibrate_to_weighted_mean"])
_framed(p15.quantile_scale, ["generic_loss.CBQuantileRegressor.quantile_global_scale", "utils.continuous_quantile_from_discrete_pdf"], sym=False)
_framed(p15.quantile_uncertainty, ["generic_loss.uncertainty_gamma", "generic_loss.uncertainty_gaussian"])
_framed(p17.samples, ["quantile_matching.J_QPD_S", "quantile_matching.J_QPD_B"])
_framed(p21.stored_nd, ["smoothing.multidim.BinValuesSmoother.fit"])
_framed(p21.not_seen, ["utils.not_seen_events"])
_framed(p21.restricted, ["smoothing.meta_smoother.RegressionTypeSmoother"])
_framed(p21.clamped, ["smoothing.onedim.OrthogonalPolynomialSmoother"])
_framed(p21.sections, ["smoothing.meta_smoother.SectionSmoother"])
_framed(p24.parts, ["price.CBLinkPredictions"])
_framed(p24.begin, ["price.CBLinkPredictions"])
_framed(p24.price_variable, ["price.CBExponential._init_external_column", "price.CBExponential._get_prior_exponent"])
for k in ("binned", "table", "chosen", "posterior_mean", "overall", "update", "means"):
    _framed(getattr(p25, k), functions_of(getattr(p25, k)))
for k in ("stddev", "line", "linear_bins", "digitised", "neutral_two"):
    _framed(getattr(p27, k), functions_of(getattr(p27, k)))
_framed(p28.optimised, ["generic_loss.CBGenericLoss.optimization"])


def _variants(rng, X):
    """the same matrix in different memory layouts"""
    k = int(rng.integers(0, 4))
    if k == 1:
        return np.asfortranarray(X)
    if k == 2:
        big = np.full((2 * X.shape[0], X.shape[1] + 1), 7.0)
        big[::2, :-1] = X
        return big[::2, :-1]
    if k == 3:
        return np.ascontiguousarray(X.T).T
    return X.copy()


def _same(a, b):
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.index.equals(b.index) and all(a[c].dtype == b[c].dtype and _same(a[c].values, b[c].values) for c in a.columns)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    if a.dtype.kind == "O":
        return all(x is y or x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
    return bool(np.array_equal(a, b))


def _index(rng, X):
    if rng.random() < 0.3:
        X = X.copy()
        X.index = rng.permutation(len(X)) + 5
    return X


@bounded("P22", [B + "fit", B + "predict", B + "get_feature_contributions", B + "transform", B + "fit_transform", "price.CBExponential.fit", "nbinom.CBNBinomC.fit", "GBSregression.CBGBSRegressor", "generic_loss.CBQuantileRegressor"], trials=150, con_budget=40)
def estimators(S):
    """bounded: random trainings of every mode; feature matrix, target and weights compared before and after"""
    rng = S.rng
    mode = S.choice("mode", list(util.ALLMODES))
    c = util.Case(S, mode)
    kw = c.kw(S)
    if mode in ("mquantile", "aquantile"):
        kw["maximal_iterations"] = min(2, kw["maximal_iterations"])
    S._rec("rows", c.n)
    if rng.random() < 0.3:
        kw["observers"] = [S.mod("observers").PlottingObserver()]
    X, y = _index(rng, c.X), c.y
    if rng.random() < 0.3:
        col = c.features[int(rng.integers(0, len(c.features)))]
        X = X.copy()
        X[col] = X[col].fillna(-1).astype(int)
    if rng.random() < 0.3 and mode != "location":
        y = y.astype(int) if mode not in ("gbs", "aquantile") else y
    how = S.choice("as", ["frame", "matrix", "series"])
    groups, props = c.groups, c.props
    if how == "matrix" and mode not in ("exponential", "nbinomc"):
        ix = {k: i for i, k in enumerate(X.columns)}
        groups = [tuple(ix[k] for k in g) if isinstance(g, tuple) else ix[g] for g in groups]
        props = {ix[k]: v for k, v in props.items()}
        for k in ("weight_column", "prior_prediction_column"):
            if kw.get(k) is not None:
                kw[k] = ix[kw[k]]
        X = _variants(rng, X.values.astype(float))
    X0, y0 = X.copy(), y.copy()
    e = util.make(S, mode, groups, props, **kw)
    tr = isinstance(X, pd.DataFrame) and rng.random() < 0.4
    if tr:
        e.output_column = "out"
    exc, _ = S.call(util.quiet, e.fit_transform if tr and rng.random() < 0.5 else e.fit, X, y)
    if exc is not None and not util.diverged(S, exc):
        raise exc

    def rest(Z):
        return Z.drop(columns=["out"]) if isinstance(Z, pd.DataFrame) and "out" in Z.columns else Z

    S.ensure("target unchanged by the training", _same(y, y0))
    S.ensure("feature matrix unchanged by the training", _same(rest(X), X0))
    if exc is not None:
        return
    Z = rest(X).copy()
    if rng.random() < 0.5:
        p = rng.permutation(len(Z))
        Z = Z.iloc[p].copy() if isinstance(Z, pd.DataFrame) else Z[p]
    Z0 = Z.copy()
    r1 = util.quiet(e.predict, Z)
    S.ensure("feature matrix unchanged by predictions", _same(Z, Z0))
    r1 = np.array(r1, copy=True)
    if hasattr(e, "predict_proba"):
        util.quiet(e.predict_proba, Z)
    util.quiet(e.get_feature_contributions, Z)
    S.ensure("feature matrix unchanged by contributions", _same(Z, Z0))
    S.ensure("second prediction is the same", np.array_equal(r1, util.quiet(e.predict, Z), equal_nan=True))
    if tr:
        out = util.quiet(e.transform, Z)
        S.ensure("transform adds one column", list(out.columns) == list(Z0.columns) + ["out"])
        S.ensure("transform changes no other column", _same(out.drop(columns=["out"]), Z0))
    if isinstance(Z, np.ndarray) or mode == "nbinomc":
        return
    yy = y0.copy()
    util.quiet(e.predict, Z0.copy(), yy)
    S.ensure("target unchanged by predictions", _same(yy, y0))


@bounded("P22", ["binning.ecdf_transformer.ECdfTransformer.fit", "binning.ecdf_transformer.ECdfTransformer.transform", T, "binning.ecdf_transformer.calculate_cdf_from_weighted_data", "binning.ecdf_transformer.reduce_cdf_and_boundaries_to_nbins"], trials=250)
def binners(S):
    """bounded: random columns of several types through both binners"""
    rng, fl = S.rng, S.mod("flags")
    n, m = S.int("n", 1, 40), S.int("m", 1, 4)
    cols, props = {}, {}
    frame = S.choice("frame", [True, False])
    for k in range(m):
        x = rng.normal(size=n) if rng.random() < 0.5 else rng.integers(-9, 4, n).astype(float)
        if rng.random() < 0.4:
            x[rng.random(n) < 0.3] = rng.choice([np.nan, np.inf, -np.inf, -999])
        if frame and np.isfinite(x).all() and rng.random() < 0.5:
            x = x.astype(rng.choice(["int64", "int32", "float32"]))
        nm = "c%d" % k if frame else k
        cols[nm] = x
        props[nm] = int(rng.choice([fl.IS_CONTINUOUS, fl.IS_ORDERED, fl.IS_UNORDERED])) | int(rng.choice([0, fl.HAS_MISSING, fl.HAS_MAGIC_INT_MISSING]))
    wc = None
    if rng.random() < 0.5:
        wc = "w" if frame else m
        cols[wc] = rng.uniform(0, 2, n) + 0.01
    X = _index(rng, pd.DataFrame(cols)) if frame else _variants(rng, np.stack(list(cols.values()), 1))
    if rng.random() < 0.2 and wc is None:
        props = None
    bt, ec = S.mod("binning.bin_number_transformer").BinNumberTransformer, S.mod("binning.ecdf_transformer").ECdfTransformer
    cls = S.choice("binner", [bt, ec])
    t = cls(n_bins=int(rng.integers(2, 12)), feature_properties=props, weight_column=wc)
    X0, y = X.copy(), rng.normal(size=n)
    y0 = y.copy()
    p0 = None if props is None else dict(props)
    util.quiet(t.fit, X, y)
    S.ensure("matrix unchanged by fitting", _same(X, X0) and _same(y, y0))
    fitted = [(c, e, None if b is None else b.copy()) for c, e, b in t.bins_and_cdfs_]
    Z = X.copy() if rng.random() < 0.5 else X
    r = util.quiet(t.transform, Z)
    S.ensure("matrix unchanged by transforming", _same(Z, X0))
    S.ensure("result does not share memory with the matrix", not (isinstance(r, np.ndarray) and isinstance(Z, np.ndarray) and np.shares_memory(r, Z)))
    util.quiet(cls(n_bins=5, feature_properties=props, weight_column=wc).fit_transform, Z)
    S.ensure("matrix unchanged by both", _same(Z, X0))
    S.ensure("fitted bins unchanged by transforming", all(a[0] == b[0] and a[1] == b[1] and (a[2] is None) == (b[2] is None) and (a[2] is None or np.array_equal(a[2], b[2])) for a, b in zip(fitted, t.bins_and_cdfs_)))
    S.ensure("properties unchanged", p0 == props)


@bounded("P22", ["smoothing.onedim", "smoothing.multidim", "smoothing.meta_smoother", "smoothing.extrapolate", "smoothing.orthofit"], trials=400)
def smoothers(S):
    """bounded: every smoother with random bins"""
    rng = S.rng
    if S.choice("dimensions", [1, 1, 2]) == 1:
        z = zoo.one_dim(S)
        name = S.choice("smoother", sorted(z))
        sm = z[name](rng)
        shape, X, y = zoo.bins(rng, 1, 5, 12)
        pts = np.r_[X[:, 0], rng.uniform(-2, 14, 4)]
        P = np.c_[pts]
        if name in ("cut", "normalised cut", "section"):
            P = np.c_[pts]
    else:
        z = zoo.multi_dim(S)
        name = S.choice("smoother2", sorted(z))
        k = 2
        sm = z[name](rng, k)
        shape, X, y = zoo.bins(rng, k, 2, 5)
        P = np.r_[X[:, :k], rng.integers(-1, 6, (3, k)).astype(float)]
    if S.choice("layout", [0, 1]):
        X, P = _variants(rng, X), _variants(rng, P)
    X0, y0, P0 = X.copy(), y.copy(), P.copy()
    exc, _ = S.call(util.quiet, sm.fit, X, y)
    S.ensure("bins unchanged by fitting", _same(X, X0))
    S.ensure("values unchanged by fitting", _same(y, y0))
    if exc is not None:
        return
    exc, r = S.call(util.quiet, sm.predict, P)
    S.ensure("points unchanged by predicting", _same(P, P0))
    S.ensure("bins unchanged by predicting", _same(X, X0))
    S.ensure("values unchanged by predicting", _same(y, y0))
    if exc is None:
        r = np.array(r, copy=True)
        exc, r2 = S.call(util.quiet, sm.predict, P)
        S.ensure("the same answer again", exc is None and np.array_equal(r, r2, equal_nan=True))


@bounded("P22", ["quantile_matching.QPD_RegressorChain.fit", "quantile_matching.J_QPD_S", "quantile_matching.J_QPD_B", "quantile_matching.J_QPD_extended_U", "quantile_matching.quantile_fit_gaussian", "quantile_matching.quantile_fit_gamma", "quantile_matching.quantile_fit_spline", "interaction_selection.select_interaction_terms_anova"], trials=60)
def others(S):
    """bounded: quantile distributions, quantile fits and the selection of interactions"""
    rng = S.rng
    qm = S.mod("quantile_matching")
    n = S.int("n", 1, 5)
    lo = rng.uniform(0.5, 1, n)
    mid, hi = lo + rng.uniform(0.2, 1, n), None
    hi = mid + rng.uniform(0.2, 1, n)
    a = [lo, mid, hi]
    k = [x.copy() for x in a]
    ps = rng.uniform(0.05, 0.95, n)
    p0 = ps.copy()
    which = S.choice("distribution", ["s", "b", "eu", "es", "eb"])
    b = a if which in ("s", "b") else [float(x[0]) for x in a]
    d = {
        "s": lambda: qm.J_QPD_S(0.2, *a, l=0.0),
        "b": lambda: qm.J_QPD_B(0.2, *a, l=0.0, u=5.0),
        "eu": lambda: qm.J_QPD_extended_U(0.2, *b),
        "es": lambda: qm.J_QPD_extended_S(0.2, *b, l=0.0),
        "eb": lambda: qm.J_QPD_extended_B(0.2, *b, l=0.0, u=5.0),
    }[which]()
    util.quiet(d.ppf, ps)
    xs = np.linspace(0.6, 2, n)
    x0 = xs.copy()
    util.quiet(d.cdf, xs)
    S.ensure("quantile values unchanged", all(np.array_equal(x, y) for x, y in zip(a, k)) and np.array_equal(ps, p0) and np.array_equal(xs, x0))
    q, v = np.array([0.2, 0.5, 0.8]), np.array([float(lo[0]), float(mid[0]), float(hi[0])])
    q0, v0 = q.copy(), v.copy()
    for f in (qm.quantile_fit_gaussian, qm.quantile_fit_gamma, qm.quantile_fit_spline):
        S.call(util.quiet, f, q, v)
    S.ensure("quantiles unchanged by fits", np.array_equal(q, q0) and np.array_equal(v, v0))
    X = pd.DataFrame({c: rng.normal(size=30) for c in "abc"})
    y = rng.normal(size=30)
    X0, y0 = X.copy(), y.copy()
    util.quiet(S.mod("interaction_selection").select_interaction_terms_anova, X, y, {c: S.mod("flags").IS_CONTINUOUS for c in "abc"}, 2, 1)
    S.ensure("data unchanged by the selection of interactions", _same(X, X0) and _same(y, y0))
