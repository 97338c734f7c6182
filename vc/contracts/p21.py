"""P21: values of bin smoothers."""
import numpy as np

from . import zoo
from ..spec import bounded, contract

ON = "cyclic_boosting.smoothing.onedim."
MU = "cyclic_boosting.smoothing.multidim."
ME = "cyclic_boosting.smoothing.meta_smoother."
UT = "cyclic_boosting.utils."
DIMS = ["the number of dimensions of a feature group is 1, 2 or 3 in the proofs (loops over dimensions are unrolled)"]


def _rows(S, k, cols, ints=False):
    """arbitrary rows asked for: any bin numbers, missing, infinite, out of range"""
    X = S.array("X", (k, cols), kind="any", ints=ints)
    if not S.sym and "X" not in S.given and S.rng.random() < 0.7:
        X = S.rng.integers(-1, 6, (k, cols)).astype(float)
        if not ints and S.rng.random() < 0.3:
            X = X + S.rng.choice([0, 0.2, -0.3], size=(k, cols))
        if X.size and S.rng.random() < 0.4:
            X.flat[int(S.rng.integers(X.size))] = [float("nan"), float("inf"), -float("inf")][int(S.rng.integers(3))]
        S._rec("X", X)
    return X


@contract("P21", [ON + "PredictingBinValueMixin.predict", UT + "nans"], trials=200)
def stored_1d(S):
    m = S.mod("smoothing.onedim")
    n = S.dim("n", 0)
    k = S.dim("k", 0)
    c = S.choice("columns", [1, 3])
    y = S.array("stored", n, kind="any")
    X = _rows(S, k, c)
    x0 = S.copy(X)
    s = m.BinValuesSmoother()
    s.smoothed_y_ = y
    exc, p = S.call(s.predict, X)
    S.ensure("no error", exc is None)
    S.ensure("one value per row", S.eq(S.len(p), k, 0, 0))

    def valid(i, j):
        v = S.at(x0, i, 0)
        return S.implies(S.and_(S.isfinite(v), S.eq(v, j, 0, 0)), lambda: S.eq(S.at(p, i), S.at(y, j), 0, 0))

    def invalid(i):
        v = S.at(x0, i, 0)
        bad = S.or_(S.not_(S.isfinite(v)), v < 0, v >= n)
        return S.implies(bad, lambda: S.isnan(S.at(p, i)))

    S.ensure_forall("the stored value of the bin", (k, n), valid)
    S.ensure_forall("no value outside the bins", k, invalid)


@contract("P21", [MU + "PredictingBinValueMixin.predict", MU + "BinValuesSmoother.fit", "cyclic_boosting.smoothing.base.SetNBinsMixin.set_n_bins", UT + "bin_steps"], trials=200, assumes=DIMS)
def stored_nd(S):
    m = S.mod("smoothing.multidim")
    d = S.choice("dimensions", [2, 3])
    nb = [S.int("nb%d" % q, 1, None if S.sym else 4) for q in range(d)]
    tot = 1
    for q in nb:
        tot = tot * q
    y = S.array("stored", tot, kind="any")
    s = m.BinValuesSmoother()
    u = S.mod("utils")
    if S.sym:
        from .. import arr

        a = arr.asarray(nb)
    else:
        a = np.array(nb, dtype=np.int64)
    s.n_bins_, s._bin_steps, s.smoothed_y_, s.ndim_ = a, u.bin_steps(a), y, d
    k = S.dim("k", 0)
    X = _rows(S, k, d)
    x0 = S.copy(X)

    def row(i):
        return [S.at(x0, i, q) for q in range(d)]

    def step(q):
        r = 1
        for b in nb[q + 1 :]:
            r = r * b
        return r

    def ok(i):
        return S.and_(*[S.and_(S.isfinite(v), v >= 0, v < b) for v, b in zip(row(i), nb)])

    if S.sym:
        for q in range(d):
            S.assume_forall(k, lambda i, q=q: S.monotone(S.integer(row(i)[q]) + 1, nb[q], step(q)))
            S.assume_forall(k, lambda i, q=q: S.monotone(0, S.integer(row(i)[q]), step(q)))
    exc, p = S.call(s.predict, X)
    S.ensure("no error", exc is None)
    S.ensure("one value per row", S.eq(S.len(p), k, 0, 0))

    def position(i):
        r = 0
        for q, v in enumerate(row(i)):
            r = r + S.integer(v) * step(q)
        return r

    S.ensure_forall("the stored value of the bin", k, lambda i: S.implies(ok(i), lambda: S.eq(S.at(p, i), S.at(y, position(i)), 0, 0)))
    S.ensure_forall("no value outside the bins", k, lambda i: S.implies(S.not_(ok(i)), lambda: S.isnan(S.at(p, i))))


class _Inner:
    """an arbitrary smoother: an arbitrary function of the row, or no value"""

    def __init__(self, S, d, name="curve"):
        self.S, self.d, self.f, self.seen = S, d, S.fn(name, d), []

    def fit(self, X, y):
        self.seen.append((X, y))
        return self

    def value(self, X, i):
        return self.S.at(self.f(*[X[:, q] for q in range(self.d)]), i)

    def predict(self, X):
        return self.f(*[X[:, q] for q in range(self.d)])


@contract("P21", [UT + "not_seen_events", UT + "slice_finite_semi_positive", UT + "multidim_binnos_to_lexicographic_binnos"], trials=200, assumes=DIMS)
def not_seen(S):
    u = S.mod("utils")
    d = S.choice("dimensions", [1, 2])
    nb = [S.int("nb%d" % q, 1, None if S.sym else 4) for q in range(d)]
    tot = nb[0] if d == 1 else nb[0] * nb[1]
    w = S.array("weights", tot, lo=0)
    k = S.dim("k", 0)
    X = _rows(S, k, d, ints=True)
    x0 = S.copy(X)
    if S.sym:
        from .. import arr

        a = arr.asarray(nb)
    else:
        a = np.array(nb, dtype=np.int64)
        if S.rng.random() < 0.5:
            w[S.rng.random(len(w)) < 0.4] = 0.0
            S._rec("weights", w)
    exc, r = S.call(u.not_seen_events, X, w, a)
    S.ensure("no error", exc is None)
    S.ensure("one answer per row", S.eq(S.len(r), k, 0, 0))

    def row(i):
        return [S.at(x0, i, q) for q in range(d)]

    def ok(i):
        return S.and_(*[S.and_(S.isfinite(v), v >= 0, v < b) for v, b in zip(row(i), nb)])

    def pos(i):
        v = row(i)
        return S.integer(v[0]) if d == 1 else S.integer(v[0]) * nb[1] + S.integer(v[1])

    S.ensure_forall("a bin is seen if it has weight", k, lambda i: S.implies(ok(i), lambda: S.iff(S.at(r, i), S.eq(S.at(w, pos(i)), 0, 0, 0))))
    S.ensure_forall("everything else is not seen", k, lambda i: S.implies(S.not_(ok(i)), lambda: S.at(r, i)))


@contract("P21", [ME + "RegressionTypeSmoother.predict", ME + "RegressionTypeSmoother.apply_cut", ME + "NormalizationRegressionTypeSmoother.predict", ME + "_selected_events_interpolating", "cyclic_boosting.smoothing.base.SetNBinsMixin.set_n_bins"], trials=150, assumes=DIMS)
def restricted(S):
    m = S.mod("smoothing.meta_smoother")
    u = S.mod("utils")
    R = m.RegressionType
    d = S.choice("dimensions", [1, 2])
    reg = S.choice("type", [R.discontinuous, R.interpolating, R.extrapolating])
    normed = S.choice("normalised", [False, True])
    inner = _Inner(S, d)
    s = (m.NormalizationRegressionTypeSmoother if normed else m.RegressionTypeSmoother)(inner, reg)
    nb = [S.int("nb%d" % q, 1, None if S.sym else 4) for q in range(d)]
    s.ndim_ = d
    if S.sym:
        from .. import arr

        s.n_bins_ = arr.asarray(nb)
    else:
        s.n_bins_ = np.array(nb, dtype=np.int64)
    tot = nb[0] if d == 1 else nb[0] * nb[1]
    w = S.array("weights", tot, lo=0)
    s.bin_weights_ = w
    norm = 0
    if normed:
        s.norm_ = norm = S.real("norm", -5, 5)
    k = S.dim("k", 0)
    X = _rows(S, k, d, ints=True)
    x0 = S.copy(X)
    hidden = []

    def not_seen_events(x, wx, n_bins):
        S.ensure("asked with the stored weights", wx is w)
        h = S.array("hidden", k, dtype="b")
        hidden.append((x, h))
        return h

    S.stub(u, "not_seen_events", not_seen_events, needed=False)
    exc, p = S.call(s.predict, X)
    S.ensure("no error", exc is None)
    S.ensure("one value per row", S.eq(S.len(p), k, 0, 0))
    cols = [x0[:, q] for q in range(d)]
    curve = inner.f(*cols)

    def row(i):
        return [S.at(x0, i, q) for q in range(d)]

    def finite(i):
        return S.and_(*[S.isfinite(v) for v in row(i)])

    def want(i):
        return S.eq(S.at(p, i), S.at(curve, i) + norm)

    if reg is R.discontinuous and hidden:
        S.ensure_forall("asked about the bins of the rows", (k, d), lambda i, q: S.eq(S.at(hidden[0][0], i, q), S.at(x0, i, q), 0, 0))
        S.ensure_forall("no value for unseen bins, the curve otherwise", k, lambda i: S.ite(S.at(hidden[0][1], i), S.isnan(S.at(p, i)), want(i)) if S.sym else (S.isnan(S.at(p, i)) if S.at(hidden[0][1], i) else want(i)))
    elif reg is R.interpolating:
        out = lambda i: S.or_(*[S.or_(v < 0, v >= b) for v, b in zip(row(i), nb)])
        S.ensure_forall("no value outside the bins", k, lambda i: S.implies(S.and_(finite(i), out(i)), lambda: S.isnan(S.at(p, i))))
        within = lambda i: S.and_(*[S.and_(v >= 0, v <= b - 1) for v, b in zip(row(i), nb)])
        S.ensure_forall("the curve inside", k, lambda i: S.implies(S.and_(finite(i), within(i)), lambda: want(i)))
    elif reg is R.extrapolating:
        S.ensure_forall("the curve everywhere", k, lambda i: S.implies(finite(i), lambda: want(i)))


class _Echo:
    """a smoother that answers with the values it was fitted with"""

    def fit(self, X, y):
        self.y = y
        return self

    def predict(self, X):
        return self.y


@contract("P21", [ME + "RegressionTypeSmoother.fit", ME + "RegressionTypeSmoother.predict", ME + "NormalizationSmoother.fit", ME + "NormalizationSmoother.predict", ME + "NormalizationSmoother.calc_norm", ME + "NormalizationRegressionTypeSmoother.fit", ME + "NormalizationRegressionTypeSmoother.predict"], trials=150, assumes=DIMS)
def handed_on(S):
    """a value kept by the wrapped smoother comes back unchanged"""
    m = S.mod("smoothing.meta_smoother")
    R = m.RegressionType
    d = S.choice("dimensions", [1, 2])
    kind = S.choice("kind", ["cut", "normalised", "normalised cut"])
    n = S.dim("n", 1)
    X, y = S.array("X", (n, d + 2), 0), S.array("y", n)
    if not S.sym and "X" not in S.given and S.rng.random() < 0.3:
        X[:, d] = 0.0
        X = S._rec("X", X)
    S.stub(S.mod("smoothing.base").SetNBinsMixin, "set_n_bins", lambda self, X_for_smoother: None, needed=False)
    inner = _Echo()
    if kind == "cut":
        s = m.RegressionTypeSmoother(inner, R.extrapolating)
    elif kind == "normalised":
        s = m.NormalizationSmoother(inner)
    else:
        s = m.NormalizationRegressionTypeSmoother(inner, R.extrapolating)
    x0, y0 = S.copy(X), S.copy(y)
    exc, _ = S.call(s.fit, X, y)
    S.ensure("fit without error", exc is None)
    exc, p = S.call(s.predict, X)
    S.ensure("predict without error", exc is None)
    S.ensure_forall("the value of the bin", n, lambda i: S.eq(S.at(p, i), S.at(y0, i), 1e-9, 1e-9 * (1 if S.sym else 1 + np.abs(y0).max())))
    S.ensure_forall("rows unchanged", (n, d + 2), lambda i, q: S.eq(S.at(X, i, q), S.at(x0, i, q), 0, 0))


@contract("P21", ["cyclic_boosting.smoothing.base.SetNBinsMixin.set_n_bins"], trials=100, assumes=DIMS)
def numbers(S):
    b = S.mod("smoothing.base")
    u = S.mod("utils")
    d = S.choice("dimensions", [1, 2, 3])
    n = S.dim("n", 1)
    X = S.array("bins", (n, d + 2), lo=0, ints=True)
    s = b.SetNBinsMixin()
    exc, _ = S.call(s.set_n_bins, X)
    S.ensure("no error", exc is None)
    S.ensure("number of dimensions", S.eq(s.ndim_, d, 0, 0))
    S.ensure_forall("weights of the bins", n, lambda i: S.eq(S.at(s.bin_weights_, i), S.at(X, i, d), 0, 0))
    top = [S.int("top%d" % q, 0, None) for q in range(d)]
    for q in range(d):
        S.assume_forall(n, lambda i, q=q: S.at(X, i, q) <= top[q])
        S.ensure("no more bins than the largest bin number plus one", S.at(s.n_bins_, q) <= top[q] + 1)
        S.ensure_forall("every bin number is below the number of bins", n, lambda i: S.at(X, i, q) < S.at(s.n_bins_, q))


@contract("P21", [ON + "OrthogonalPolynomialSmoother.predict", ON + "OrthogonalPolynomialSmoother.fit"], trials=100)
def clamped(S):
    m = S.mod("smoothing.onedim")
    n = S.dim("n", 1)
    X = S.array("bins", (n, 3), ints=True, lo=0)
    y = S.array("y", n)
    f = S.fn("curve", 1)
    par, deg = object(), object()

    def fit(binnos, bincontents, binuncertainties):
        return par, deg

    def apply(binnos, parameters, n_degrees):
        S.ensure("with the fitted curve", parameters is par and n_degrees is deg)
        return f(binnos)

    S.stub(m, "cy_orthogonal_poly_fit_equidistant", fit)
    S.stub(m, "cy_apply_orthogonal_poly_fit_equidistant", apply)
    s = m.OrthogonalPolynomialSmoother()
    fexc, r = S.call(s.fit, X, y)
    k = S.dim("k", 0)
    Q = S.array("asked", (k, 1))
    exc, p = S.call(s.predict, Q)
    S.ensure("no error", fexc is None and exc is None)
    lo, hi = s.minimal_x, s.maximal_x
    S.ensure_forall("the range covers all bins seen", n, lambda i: S.and_(lo <= S.at(X, i, 0), S.at(X, i, 0) <= hi))
    S.ensure("the ends are bins seen", S.and_(S.exists(n, lambda i: S.eq(lo, S.at(X, i, 0), 0, 0)), S.exists(n, lambda i: S.eq(hi, S.at(X, i, 0), 0, 0))))
    inside = lambda v: S.max(lo, S.min(hi, v))
    S.ensure_forall("the curve at the nearest bin seen", k, lambda i: S.eq(S.at(p, i), f(inside(S.at(Q, i, 0)))))


@contract("P21", [ME + "SectionSmoother.predict", ME + "SectionSmoother.fit", ME + "SectionSmoother._split_condition"], trials=150)
def sections(S):
    m = S.mod("smoothing.meta_smoother")
    lower, upper = _Inner(S, 1, "lower"), _Inner(S, 1, "upper")
    split = S.real("split", -1, 6)
    s = m.SectionSmoother(split, lower, upper)
    n = S.dim("n", 1)
    X = S.array("bins", (n, 3), lo=0, ints=True)
    y = S.array("y", n)
    # bin numbers are not within the comparison threshold above the split
    clear = lambda v: S.or_(v <= split, v > split + 0.01)
    S.assume_forall(n, lambda i: clear(S.at(X, i, 0)))
    some_low, some_up = S.choice("sides", [(True, True), (True, False), (False, True)])
    for name, some, on in (("low", some_low, lambda x: x <= split), ("up", some_up, lambda x: x > split)):
        if some:
            at = S.int("at %s" % name, 0, n - 1)
            S.assume(on(S.at(X, at, 0)))
        else:
            S.assume_forall(n, lambda i, on=on: S.not_(on(S.at(X, i, 0))))
    fexc, _ = S.call(s.fit, X, y)
    k = S.dim("k", 0)
    Q = S.array("asked", (k, 1), ints=True)
    S.assume_forall(k, lambda i: clear(S.at(Q, i, 0)))
    exc, p = S.call(s.predict, Q)
    S.ensure("no error", fexc is None and exc is None)
    v = lambda i: S.at(Q, i, 0)
    S.ensure_forall("below the split the lower curve if it was fitted", k, lambda i: S.implies(v(i) <= split, lambda: S.eq(S.at(p, i), lower.f(v(i))) if some_low else S.isnan(S.at(p, i))))
    S.ensure_forall("above the split the upper curve if it was fitted", k, lambda i: S.implies(v(i) > split, lambda: S.eq(S.at(p, i), upper.f(v(i))) if some_up else S.isnan(S.at(p, i))))
    for part, on in ((lower, lambda x: x <= split), (upper, lambda x: x > split)):
        for XX, yy in part.seen:
            S.ensure("values and bins of a side", S.eq(S.len(yy), S.shape(XX)[0], 0, 0))
            S.ensure_forall("only bins of this side", S.len(yy), lambda i: on(S.at(XX, i, 0)))


VALUE1 = ["values", "prior", "one", "mean", "mean prior", "neighbours", "meta"]
VALUEN = ["values", "prior", "one", "mean", "mean prior", "meta", "neutral"]


def _same(a, b, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def _query(rng, shape, k):
    d = len(shape)
    Q = np.stack([rng.integers(-1, s + 2, k) for s in shape], -1).astype(float) if k else np.zeros((0, d))
    for _ in range(int(rng.integers(0, 3))):
        if k:
            Q[int(rng.integers(0, k)), int(rng.integers(0, d))] = rng.choice([np.nan, np.inf, -np.inf])
    return Q


def _valid(Q, shape):
    with np.errstate(invalid="ignore"):
        return np.all(np.isfinite(Q) & (Q >= 0) & (Q < np.array(shape)), axis=1)


@bounded("P21", [ON + "BinValuesSmoother.fit", ON + "RegularizeToPriorExpectationSmoother.fit", ON + "WeightedMeanSmoother.fit", ON + "WeightedMeanSmootherNeighbors.fit", ON + "PriorExpectationMetaSmoother.fit", MU + "BinValuesSmoother.fit", MU + "RegularizeToPriorExpectationSmoother.fit", MU + "WeightedMeanSmoother.fit", MU + "PriorExpectationMetaSmoother.fit", MU + "Neutralize2DMetaSmoother.fit", ON + "BinValuesSmoother.__getstate__", ON + "BinValuesSmoother.__setstate__", MU + "BinValuesSmoother.__getstate__", MU + "BinValuesSmoother.__setstate__"], trials=300)
def values(S):
    """smoothers that store one value per bin"""
    import copy
    import pickle

    rng = S.rng
    d = int(rng.integers(1, 4))
    if d == 1:
        zoo_, names = zoo.one_dim(S), VALUE1
        name = names[int(rng.integers(0, len(names)))]
        s = zoo_[name](rng)
    else:
        zoo_ = zoo.multi_dim(S)
        name = VALUEN[int(rng.integers(0, len(VALUEN)))]
        if name == "neutral":
            d = 2
        s = zoo_[name](rng, d)
    shape, X, y = zoo.bins(rng, d)
    S._rec("smoother", name)
    S._rec("shape", shape)
    S._rec("y", y)
    S._rec("X", X)
    exc, _ = S.call(s.fit, X, y)
    S.ensure("fit without error", exc is None)
    vals = np.array(s.smoothed_y_, dtype=float).reshape(shape)
    if name == "values":
        S.ensure("values are kept as they are", _same(vals.reshape(-1), y, 0))
    k = int(rng.integers(0, 12))
    Q = _query(rng, shape, k)
    S._rec("asked", Q)
    exc, p = S.call(s.predict, Q)
    S.ensure("predict without error", exc is None and len(p) == k)
    ok = _valid(Q, shape)
    S.ensure("no value outside the bins", bool(np.all(np.isnan(np.asarray(p)[~ok]))))
    S.ensure("the stored value of the bin", _same(np.asarray(p)[ok], [vals[tuple(r.astype(int))] for r in Q[ok]], 0))
    exc, q = S.call(s.predict, X[:, :d])
    S.ensure("all bins in order", exc is None and _same(q, vals.reshape(-1), 0))
    for f in (lambda z: pickle.loads(pickle.dumps(z)), copy.deepcopy):
        exc, q = S.call(f(s).predict, Q)
        S.ensure("a copy answers the same", exc is None and _same(q, p, 0))


@bounded("P21", [ON + c + ".predict" for c in ("OrthogonalPolynomialSmoother", "SeasonalSmoother", "SeasonalLassoSmoother", "UnivariateSplineSmoother", "PolynomialSmoother", "LSQUnivariateSpline", "IsotonicRegressor")] + ["cyclic_boosting.smoothing.extrapolate.LinearExtrapolator.predict", MU + "GroupBySmoother.predict", MU + "GroupBySmoother.fit", MU + "_predict_groups", MU + "_fit_est_on_group", ME + "SectionSmoother.predict", ME + "NormalizationSmoother.predict"], trials=400)
def rows(S):
    """the answer for a row does not depend on the other rows"""
    rng = S.rng
    d = int(rng.choice([1, 1, 2, 3]))
    zoo_ = zoo.one_dim(S) if d == 1 else zoo.multi_dim(S)
    name = sorted(zoo_)[int(rng.integers(0, len(zoo_)))]
    if d == 3 and name == "neutral":
        name = "values"
    s = zoo_[name](rng) if d == 1 else zoo_[name](rng, d)
    shape, X, y = zoo.bins(rng, d, lo=6 if d == 1 else 1, hi=14)
    S._rec("smoother", "%s %d" % (name, d))
    S._rec("X", X)
    S._rec("y", y)
    exc, _ = S.call(s.fit, X.copy(), y.copy())
    if exc is not None and name == "lasso":
        # degenerate bins the library refuses
        return
    S.ensure("fit without error", exc is None)
    if exc is not None:
        return
    curve = np.asarray(S.call(s.predict, X[:, :d])[1], dtype=float)
    S.ensure("one value per bin", curve.shape == (len(X),))
    perm = rng.permutation(len(X))[: int(rng.integers(1, len(X) + 1))]
    if rng.random() < 0.5:
        perm = np.concatenate([perm, perm[:2]])
    exc, p = S.call(s.predict, X[perm][:, :d])
    S.ensure("a selection of rows gets the same values", exc is None and _same(p, curve[perm], 1e-9))
    i = int(rng.integers(0, len(X)))
    exc, p = S.call(s.predict, X[[i]][:, :d])
    S.ensure("a single row gets the same value", exc is None and _same(p, curve[[i]], 1e-9))
    if name not in ("seasonal", "lasso", "spline", "lsq", "isotonic", "poly", "linear", "extrapolate", "orthogonal", "section"):
        Q = np.r_[X[perm][:, :d], _query(rng, shape, 5)]
        exc, p = S.call(s.predict, Q)
        S.ensure("rows outside the bins do not matter", exc is None and _same(np.asarray(p)[: len(perm)], curve[perm], 1e-9))
    w = X[:, d]
    if name == "normalised":
        S.ensure("the values of the bins", _same(curve, y, 1e-9))
    if name in ("group", "group cb"):
        S.ensure("groups: values of the bins", _same(curve[: 0], []) and len(curve) == len(X))
        seen = np.ones(len(X), bool)
        if name == "group cb":
            keys = [tuple(r) for r in X[:, : d - 1]]
            tot = {}
            for q, ww in zip(keys, w):
                tot[q] = tot.get(q, 0.0) + ww
            seen = np.array([tot[q] > 0 for q in keys])
        S.ensure("a value exactly for the groups seen with weight", bool(np.all(np.isfinite(curve) == seen)))
        if name == "group":
            S.ensure("the values of the group", _same(curve, y, 1e-12))
        Q = X[:1, :d].copy()
        Q[0, 0] = shape[0] + 1
        exc, p = S.call(s.predict, Q)
        S.ensure("no value for an unseen group", exc is None and bool(np.all(np.isnan(np.asarray(p, dtype=float)))))
    if name in ("cut", "normalised cut"):
        R = type(s.reg_type)
        out = np.full((1, d), -1.0)
        far = np.array(shape, dtype=float)[None, :] + 2
        for Q in (out, far):
            exc, p = S.call(s.predict, Q)
            if s.reg_type is not R.extrapolating:
                S.ensure("no value outside the bins", exc is None and bool(np.isnan(np.asarray(p)[0])))
        if s.reg_type is R.discontinuous:
            S.ensure("no value exactly for bins without weight", bool(np.all(np.isnan(curve) == (w == 0))))
    if name in ("orthogonal", "isotonic"):
        exc, p = S.call(s.predict, np.array([[-5.0], [-0.5], [shape[0] - 0.5], [shape[0] + 40.0]]))
        S.ensure("beyond the bins seen the value of the nearest", exc is None and _same(p, [curve[0], curve[0], curve[-1], curve[-1]], 1e-9))


@bounded("P21", [ON + "OrthogonalPolynomialSmoother.predict", ON + "OrthogonalPolynomialSmoother.fit", ON + "IsotonicRegressor.predict", ON + "IsotonicRegressor.fit", ME + "SectionSmoother.predict"], trials=150)
def beyond(S):
    """range-restricted curves fitted on a part of the bins"""
    rng = S.rng
    o = S.mod("smoothing.onedim")
    n = int(rng.integers(6, 20))
    lo, hi = sorted(rng.choice(n, 2, replace=False).tolist())
    x = np.arange(lo, hi + 1).astype(float)
    if len(x) > 4 and rng.random() < 0.4:
        x = np.delete(x, int(rng.integers(1, len(x) - 1)))
    y = rng.normal(0, 1, len(x)) + 0.1 * x
    X = np.c_[x, rng.uniform(1, 9, len(x)), rng.uniform(0.1, 1, len(x))]
    s = [o.OrthogonalPolynomialSmoother(), o.IsotonicRegressor(), o.IsotonicRegressor(increasing=False)][int(rng.integers(0, 3))]
    S._rec("smoother", type(s).__name__)
    S._rec("X", X)
    S._rec("y", y)
    exc, _ = S.call(s.fit, X, y)
    if exc is not None:
        return
    grid = np.arange(-3, n + 4).astype(float)[:, None]
    grid = grid[rng.permutation(len(grid))]
    exc, p = S.call(s.predict, grid)
    at = {float(v): float(s.predict(np.array([[v]]))[0]) for v in range(lo, hi + 1)}
    S.ensure("the nearest bin seen decides beyond the range", exc is None and _same(p, [at[float(min(max(g, lo), hi))] for g in grid[:, 0]], 1e-9))
