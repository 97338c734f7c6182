"""Regularisation pulls bin values towards their reference."""
import numpy as np

from ..spec import bounded, contract
from . import util

U = "utils."


def _vals(S, name, n, same=0.3):
    v = S.array(name, n)
    if not S.sym and name not in S.given and S.rng.random() < same:
        v = S._rec(name, np.round(v))
    return v


def _unc(S, name, n):
    u = S.array(name, n, 0, lo_open=True)
    if not S.sym and name not in S.given:
        u = S._rec(name, 10.0 ** S.rng.uniform(-3, 2, np.shape(u)))
    return u


def _between(S, r, x, m):
    """r lies between x and m (relative rounding tolerance in concrete runs)"""
    if S.sym:
        return S.or_(S.and_(S.le(x, r), S.le(r, m)), S.and_(S.le(m, r), S.le(r, x)))
    t = 1e-9 * max(1.0, abs(x), abs(m))
    return bool(min(x, m) - t <= r <= max(x, m) + t)


@contract("P20", [U + "regularize_to_prior_expectation"])
def prior(S):
    f = S.mod("utils").regularize_to_prior_expectation
    n = S.dim("n", 1)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    scalar = S.bool("scalar prior")
    if scalar:
        m0 = S.real("m")
        ref = lambda i: m0
        m = m0
    else:
        m = _vals(S, "ms", n)
        ref = lambda i: S.at(m, i)
    t = S.real("t", 0)
    if not S.sym and "t" not in S.given:
        t = S._rec("t", float(S.rng.choice([0.0, 0.5, 2.5])))
    x0, u0 = S.copy(x), S.copy(u)
    r = f(x, u, m, threshold=t)
    S.ensure("one value per bin", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("between value and prior", n, lambda i: _between(S, S.at(r, i), S.at(x0, i), ref(i)))
    S.ensure_forall("finite", n, lambda i: S.isfinite(S.at(r, i)))
    S.ensure_forall("insignificant values become the prior", n, lambda i: S.implies(S.le(S.abs(S.at(x0, i) - ref(i)), t * S.at(u0, i) * (1.0 if S.sym else 1 - 1e-9), 0, 0), lambda: S.eq(S.at(r, i), ref(i), 1e-9, 1e-9)))

    def formula(i):
        d, e = S.at(x0, i) - ref(i), S.at(r, i) - ref(i)
        sig = S.gt(S.abs(d), t * S.at(u0, i) * (1.0 if S.sym else 1 + 1e-9))
        return S.implies(sig, lambda: S.eq(e * e, d * d - t * t * S.at(u0, i) * S.at(u0, i), 1e-6, 1e-6 * (1.0 if S.sym else float(d * d))))

    S.ensure_forall("squared distance shrinks by the squared threshold", n, formula)
    S.ensure_forall("inputs unchanged", n, lambda i: S.and_(S.eq(S.at(x, i), S.at(x0, i), 0, 0), S.eq(S.at(u, i), S.at(u0, i), 0, 0)))


@contract("P20", [U + "regularize_to_prior_expectation"])
def prior_monotone(S):
    """of two bins with the same value and prior the more uncertain one is pulled at least as much"""
    f = S.mod("utils").regularize_to_prior_expectation
    x, m, t = S.real("x"), S.real("m"), S.real("t", 0)
    u = _unc(S, "u", 2)
    S.assume(S.le(S.at(u, 0), S.at(u, 1), 0, 0))
    if S.sym:
        v = S.np.array([x, x])
    else:
        v = np.array([x, x])
    r = f(v, u, m, t)
    S.ensure("pull grows with uncertainty", S.le(S.abs(S.at(r, 1) - m), S.abs(S.at(r, 0) - m), 1e-9, 1e-9))


def _mean_spec(S, n, r, x, w, m, W, V):
    """w(i): weight of bin i; m(i), W(i), V(i): weighted mean, sum of weights and sum of squared
    deviations of its surroundings"""
    S.ensure("one value per bin", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("finite", n, lambda i: S.isfinite(S.at(r, i)))

    def args(i):
        return S.at(r, i), S.at(x, i), m(i), w(i), W(i), V(i)

    def prem(r, x, m, w, W, V):
        return [S.gt(w, 0), S.gt(W, 0), S.ge(V, 0), S.or_(S.eq(r, x), S.eq(r * (w * V + W), w * V * x + W * m))]

    S.ensure_forall_by("between value and reference", n, args, prem, lambda r, x, m, w, W, V: _between(S, r, x, m))


def _grows(S, n, r, x, u, m, W, V):
    """of two bins the more uncertain one moves by the larger share of its distance to the reference"""

    def args(i, j):
        return S.at(r, i), S.at(r, j), S.at(x, i), S.at(x, j), S.at(u, i), S.at(u, j), m, W, V

    def prem(ri, rj, xi, xj, ui, uj, m, W, V):
        eqn = lambda r, x, u: S.eq((r - m) * (V + W * u * u), V * (x - m))
        return [S.gt(ui, 0), S.gt(uj, 0), S.gt(W, 0), S.ge(V, 0), S.or_(S.and_(S.eq(ri, xi), S.eq(rj, xj)), S.and_(eqn(ri, xi, ui), eqn(rj, xj, uj)))]

    def concl(ri, rj, xi, xj, ui, uj, m, W, V):
        a, b, ra, rb = xi - m, xj - m, ri - m, rj - m
        tol = 0 if S.sym else 1e-6 * (abs(a * b) + abs(m) * (abs(a) + abs(b) + 1e-9))
        return S.implies(S.ge(ui, uj, 0, 0), lambda: S.le(S.abs(ra) * S.abs(b), S.abs(rb) * S.abs(a), 1e-6, tol))

    S.ensure_forall_by("pull grows with uncertainty", (n, n), args, prem, concl)


def _wsum(S, n, u, fn, sel=None):
    return S.sum(n, lambda i: fn(i) / (S.at(u, i) * S.at(u, i)))


@contract("P20", [U + "regularize_to_error_weighted_mean"])
def mean(S):
    f = S.mod("utils").regularize_to_error_weighted_mean
    n = S.dim("n", 2)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    x0 = S.copy(x)
    r = f(x, u)
    W = _wsum(S, n, u, lambda i: 1.0)
    m = _wsum(S, n, u, lambda i: S.at(x0, i)) / W
    w = lambda i: 1.0 / (S.at(u, i) * S.at(u, i))
    V = _wsum(S, n, u, lambda i: (S.at(x0, i) - m) * (S.at(x0, i) - m))
    _mean_spec(S, n, r, x0, w, lambda i: m, lambda i: W, lambda i: V)
    S.ensure_forall("inputs unchanged", n, lambda i: S.eq(S.at(x, i), S.at(x0, i), 0, 0))

    _grows(S, n, r, x0, u, m, W, V)
    # spread: size of the pull in the documented form
    if not S.sym:
        wx = 1 / u**2
        v = np.sum(wx * (x0 - m) ** 2) / W
        if not np.allclose(x0, x0[0]):
            want = (wx * x0 + m / v) / (wx + 1 / v)
            S.ensure("documented weights", np.allclose(r, want, 1e-6, 1e-6 * (abs(m) + 1e-3)))


@contract("P20", [U + "regularize_to_error_weighted_mean"])
def mean_prior(S):
    f = S.mod("utils").regularize_to_error_weighted_mean
    n = S.dim("n", 1)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    m = S.real("m")
    r = f(x, u, m)
    W = _wsum(S, n, u, lambda i: 1.0)
    w = lambda i: 1.0 / (S.at(u, i) * S.at(u, i))
    V = _wsum(S, n, u, lambda i: (S.at(x, i) - m) * (S.at(x, i) - m))
    _mean_spec(S, n, r, x, w, lambda i: m, lambda i: W, lambda i: V)

    _grows(S, n, r, x, u, m, W, V)


@contract("P20", [U + "regularize_to_error_weighted_mean", U + "regularize_to_error_weighted_mean_neighbors"])
def short(S):
    """no bin or a single bin is left alone, shapes must agree"""
    m = S.mod("utils")
    x, u = S.array("x", 1), S.array("u", 1, 0, lo_open=True)
    for f in (m.regularize_to_error_weighted_mean, m.regularize_to_error_weighted_mean_neighbors):
        r = f(x, u)
        S.ensure("single value kept", S.eq(S.at(r, 0), S.at(x, 0), 0, 0))
        S.ensure("nothing to do", len(f(np.zeros(0), np.zeros(0))) == 0)
        e, _ = S.call(f, np.zeros(2), np.ones(3))
        S.ensure("shape mismatch rejected", e is not None and isinstance(e, ValueError))


@contract("P20", [U + "regularize_to_error_weighted_mean_neighbors"])
def neighbours_frame(S):
    f = S.mod("utils").regularize_to_error_weighted_mean_neighbors
    n = S.dim("n", 3)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    x0, u0 = S.copy(x), S.copy(u)
    r = f(x, u)
    S.ensure("one value per bin", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("inputs unchanged", n, lambda i: S.and_(S.eq(S.at(x, i), S.at(x0, i), 0, 0), S.eq(S.at(u, i), S.at(u0, i), 0, 0)))


@bounded("P20", [U + "regularize_to_error_weighted_mean_neighbors"], trials=400)
def neighbours(S):
    """bounded: random vectors of up to 14 bins"""
    f = S.mod("utils").regularize_to_error_weighted_mean_neighbors
    n = S.int("n", 3, 14)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    r = f(x.copy(), u.copy())
    w = 1 / u**2
    for i in range(n):
        k = slice(max(i - 1, 0), i + 2)
        W = w[k].sum()
        m = (w[k] * x[k]).sum() / W
        v = (w[k] * (x[k] - m) ** 2).sum() / W
        S.ensure("finite", bool(np.isfinite(r[i])))
        S.ensure("between value and mean of the neighbours", _between(S, r[i], x[i], m))
        if v > 1e-12 * max(1, m * m):
            S.ensure("documented weights", bool(np.isclose(r[i], (w[i] * x[i] + m / v) / (w[i] + 1 / v), 1e-6, 1e-6 * (abs(m) + abs(x[i])))))
        else:
            S.ensure("equal neighbours", bool(np.isclose(r[i], m, 1e-5, 1e-5)))


@contract("P20", [U + "regularize_to_error_weighted_mean_neighbors"], budget=240)
def neighbours_any(S):
    """any number of bins: the value of a bin lies between the original and the mean of the bin and its neighbours"""
    f = S.mod("utils").regularize_to_error_weighted_mean_neighbors
    n = S.dim("n", 3)
    x, u = _vals(S, "x", n), _unc(S, "u", n)
    x0 = S.copy(x)
    at = S.choice("bin", ["first", "inner", "last"])
    k = {"first": 0, "last": n - 1}.get(at)
    if k is None:
        k = S.int("k", 1)
        S.assume(S.lt(k, n - 1))
    near = [k + d for d in (-1, 0, 1) if not (at == "first" and d < 0 or at == "last" and d > 0)]
    w = [1.0 / (S.at(u, j) * S.at(u, j)) for j in near]
    z = [S.at(x, j) for j in near]
    W = sum(w)
    m = sum(a * b for a, b in zip(w, z)) / W
    V = sum(a * (b - m) * (b - m) for a, b in zip(w, z))
    if S.sym:
        S.ensure("lemma: squared deviations do not add up to less than 0", V >= 0)
        S.assume(V > 0 if S.choice("neighbours", ["different", "equal"]) == "different" else S.eq(V, 0))
    r = f(x, u)
    S.decide()
    wk, rk, xk = 1.0 / (S.at(u, k) * S.at(u, k)), S.at(r, k), S.at(x0, k)
    S.ensure("finite", S.isfinite(rk))
    S.ensure_forall_by(
        "between value and mean of the neighbours",
        1,
        lambda i: (rk, xk, m, wk, W, V),
        lambda r, x, m, w, W, V: [S.gt(w, 0), S.gt(W, 0), S.ge(V, 0), S.eq(r * (w * V + W), w * V * x + W * m)],
        lambda r, x, m, w, W, V: _between(S, r, x, m),
    )


@contract("P20", [U + "regularize_to_error_weighted_mean_neighbors"])
def neighbours_two(S):
    f = S.mod("utils").regularize_to_error_weighted_mean_neighbors
    x, u = _vals(S, "x", 2), _unc(S, "u", 2)
    r = f(x, u)
    w = [1.0 / (S.at(u, i) * S.at(u, i)) for i in range(2)]
    m = (w[0] * S.at(x, 0) + w[1] * S.at(x, 1)) / (w[0] + w[1])
    V = sum(w[k] * (S.at(x, k) - m) * (S.at(x, k) - m) for k in range(2))
    _mean_spec(S, 2, r, x, lambda i: S.at(w, i) if not S.sym else S.ite(S.eq(i, 0, 0, 0), w[0], w[1]), lambda i: m, lambda i: w[0] + w[1], lambda i: V)


@contract("P20", ["smoothing.onedim.WeightedMeanSmoother.fit", "smoothing.onedim.WeightedMeanSmootherNeighbors.fit", "smoothing.onedim.RegularizeToPriorExpectationSmoother.fit", "smoothing.onedim.RegularizeToOneSmoother.fit", "smoothing.multidim.WeightedMeanSmoother.fit", "smoothing.multidim.RegularizeToPriorExpectationSmoother.fit", "smoothing.multidim.RegularizeToOneSmoother.fit"], trials=100)
def handed_on(S):
    """the smoothers give values, uncertainties and settings to the regularisation and keep its result"""
    u = S.mod("utils")
    nd = S.choice("dims", [1, 2])
    mod = S.mod("smoothing.onedim" if nd == 1 else "smoothing.multidim")
    n = S.dim("n", 3)
    y, w, unc = _vals(S, "y", n), S.array("w", n, 0, lo_open=True), _unc(S, "unc", n)
    grid = [S.array("x%d" % d, n, 0, 3, dtype="i") for d in range(nd)]
    X = S.np.column_stack([1.0 * g for g in grid] + [w, unc])
    m, t = S.real("m"), S.real("t", 0)
    res, seen = S.array("res", n), []

    def prior(values, uncertainties, prior_expectation, threshold=2.5):
        seen.append(("prior", S.copy(values), S.copy(uncertainties), prior_expectation, threshold))
        return S.copy(res)

    def mean(values, uncertainties, prior_prediction=None):
        seen.append(("mean", S.copy(values), S.copy(uncertainties), prior_prediction, None))
        return S.copy(res)

    def near(values, uncertainties, window_size=3):
        seen.append(("near", S.copy(values), S.copy(uncertainties), window_size, None))
        return S.copy(res)

    cases = [
        (mod.WeightedMeanSmoother(), "mean", None, None),
        (mod.WeightedMeanSmoother(prior_prediction=m), "mean", m, None),
        (mod.RegularizeToPriorExpectationSmoother(m, threshold=t), "prior", m, t),
        (mod.RegularizeToPriorExpectationSmoother(m), "prior", m, 2.5),
        (mod.RegularizeToOneSmoother(), "prior", 1, 2.5),
        (mod.RegularizeToOneSmoother(t), "prior", 1, t),
    ]
    if nd == 1:
        cases.append((mod.WeightedMeanSmootherNeighbors(), "near", 3, None))
    sm, what, ref, lim = cases[S.choice("smoother", list(range(len(cases))))]
    for kind, name, fn in (("prior", "regularize_to_prior_expectation", prior), ("mean", "regularize_to_error_weighted_mean", mean), ("near", "regularize_to_error_weighted_mean_neighbors", near)):
        S.stub(u, name, fn, needed=kind == what)
    same = lambda a, b: a is b or (a is not None and b is not None and S.eq(a, b, 0, 0))
    exc, _ = S.call(sm.fit, X, y)
    S.ensure("no error", exc is None)
    seen = [s for s in seen if s[0] == what]
    S.ensure("the reference", same(seen[0][3], ref))
    S.ensure("the threshold", same(seen[0][4], lim))
    S.ensure_forall("the values", n, lambda i: S.eq(S.at(seen[0][1], i), S.at(y, i), 0, 0))
    S.ensure_forall("the uncertainties", n, lambda i: S.eq(S.at(seen[0][2], i), S.at(unc, i), 0, 0))
    S.ensure_forall("the result is kept", n, lambda i: S.eq(S.at(sm.smoothed_y_, i), S.at(res, i), 0, 0))


@contract("P20", ["smoothing.onedim.PriorExpectationMetaSmoother.fit", "smoothing.onedim.PriorExpectationMetaSmoother.__init__", "smoothing.multidim.PriorExpectationMetaSmoother.fit", "smoothing.multidim.PriorExpectationMetaSmoother.__init__"], trials=100)
def after_smoother(S):
    """the values another smoother predicts at the bins are regularised, whatever this smoother is"""
    u = S.mod("utils")
    nd = S.choice("dims", [1, 2])
    mod = S.mod("smoothing.onedim" if nd == 1 else "smoothing.multidim")
    n = S.dim("n", 1)
    y, w, unc = _vals(S, "y", n), S.array("w", n, 0, lo_open=True), _unc(S, "unc", n)
    grid = [S.array("x%d" % d, n, 0, 3, dtype="i") for d in range(nd)]
    X = S.np.column_stack([1.0 * g for g in grid] + [w, unc])
    m, t = S.real("m"), S.real("t", 0)
    curve, res, seen, log = S.array("curve", n), S.array("res", n), [], []

    class Inner:
        def fit(self, X, y):
            log.append(("fit", S.copy(X), S.copy(y)))
            return self

        def predict(self, X):
            log.append(("predict", S.copy(X), None))
            return S.copy(curve)

    def prior(values, uncertainties, prior_expectation, threshold=2.5):
        seen.append((S.copy(values), S.copy(uncertainties), prior_expectation, threshold))
        return S.copy(res)

    S.stub(u, "regularize_to_prior_expectation", prior)
    given = S.choice("threshold given", [True, False])
    sm = mod.PriorExpectationMetaSmoother(Inner(), m, t) if given else mod.PriorExpectationMetaSmoother(Inner(), m)
    exc, _ = S.call(sm.fit, X, y)
    S.ensure("no error", exc is None)
    S.ensure("the smoother is fitted, then asked", len(log) > 1 and log[0][0] == "fit" and log[-1][0] == "predict")
    for d in range(nd + 2):
        S.ensure_forall("fitted on the columns", n, lambda i, d=d: S.eq(S.at(log[0][1], i, d), S.at(X, i, d), 0, 0))
    S.ensure_forall("fitted on the values", n, lambda i: S.eq(S.at(log[0][2], i), S.at(y, i), 0, 0))
    for d in range(nd):
        S.ensure_forall("asked at the bins", n, lambda i, d=d: S.eq(S.at(log[-1][1], i, d), S.at(X, i, d), 0, 0))
    S.ensure_forall("its answer is regularised", n, lambda i: S.eq(S.at(seen[-1][0], i), S.at(curve, i), 0, 0))
    S.ensure_forall("the uncertainties", n, lambda i: S.eq(S.at(seen[0][1], i), S.at(unc, i), 0, 0))
    S.ensure("the reference", S.eq(seen[0][2], m, 0, 0))
    S.ensure("the threshold", S.eq(seen[0][3], t if given else 2.5, 0, 0))
    S.ensure_forall("the result is kept", n, lambda i: S.eq(S.at(sm.smoothed_y_, i), S.at(res, i), 0, 0))


@bounded("P20", ["smoothing.onedim.WeightedMeanSmoother", "smoothing.onedim.WeightedMeanSmootherNeighbors", "smoothing.onedim.RegularizeToPriorExpectationSmoother", "smoothing.onedim.RegularizeToOneSmoother", "smoothing.onedim.PriorExpectationMetaSmoother", "smoothing.multidim.WeightedMeanSmoother", "smoothing.multidim.RegularizeToPriorExpectationSmoother", "smoothing.multidim.RegularizeToOneSmoother", "smoothing.multidim.PriorExpectationMetaSmoother"], trials=120)
def smoothers(S):
    """bounded: the smoothers hand values, uncertainties and settings to the regularisation"""
    import importlib

    rng = S.rng
    u = S.mod("utils")
    nd = S.int("dims", 1, 2)
    shape = [int(k) for k in rng.integers(1, 5, nd)]
    grid = np.indices(shape).reshape(nd, -1).T.astype(float)
    n = len(grid)
    y = rng.normal(0, 2, n)
    w, unc = rng.uniform(0.5, 9, n), 10.0 ** rng.uniform(-2, 1, n)
    X = np.column_stack([grid, w, unc])
    t, m = float(rng.choice([0.0, 1.0, 2.5])), float(rng.normal())
    mod = S.mod("smoothing.onedim" if nd == 1 else "smoothing.multidim")
    todo = [
        (mod.WeightedMeanSmoother(), u.regularize_to_error_weighted_mean(y.copy(), unc.copy())),
        (mod.WeightedMeanSmoother(prior_prediction=m), u.regularize_to_error_weighted_mean(y.copy(), unc.copy(), m)),
        (mod.RegularizeToPriorExpectationSmoother(m, threshold=t), u.regularize_to_prior_expectation(y.copy(), unc.copy(), m, t)),
        (mod.RegularizeToPriorExpectationSmoother(m), u.regularize_to_prior_expectation(y.copy(), unc.copy(), m, 2.5)),
        (mod.RegularizeToOneSmoother(), u.regularize_to_prior_expectation(y.copy(), unc.copy(), 1, 2.5)),
        (mod.RegularizeToOneSmoother(t), u.regularize_to_prior_expectation(y.copy(), unc.copy(), 1, t)),
        (mod.PriorExpectationMetaSmoother(mod.BinValuesSmoother(), m, t), u.regularize_to_prior_expectation(y.copy(), unc.copy(), m, t)),
    ]
    if nd == 1:
        todo.append((mod.WeightedMeanSmootherNeighbors(), u.regularize_to_error_weighted_mean_neighbors(y.copy(), unc.copy())))
    for sm, want in todo:
        nm = type(sm).__name__
        X1, y1 = X.copy(), y.copy()
        util.quiet(sm.fit, X1, y1)
        got = sm.predict(X[:, :nd].copy())
        S.ensure("%s regularises the bin values" % nm, np.allclose(got, want, equal_nan=True))
        S.ensure("%s leaves its inputs alone" % nm, np.array_equal(X1, X) and np.array_equal(y1, y))
