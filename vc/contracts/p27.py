"""Weighted statistics and small helpers equal their definitions."""
import numpy as np
import pandas as pd

from ..spec import bounded, contract
from . import util

U = "utils."


@contract("P27", [U + "weighted_stddev"])
def stddev(S):
    n = S.dim("n", 1)
    x, w = S.array("x", n), S.array("w", n, 0)
    S.assume(S.gt(S.sum(n, lambda i: S.at(w, i)), 0 if S.sym else 1e-3))
    x0, w0 = S.copy(x), S.copy(w)
    r = S.mod("utils").weighted_stddev(x, w)
    W = S.sum(n, lambda i: S.at(w0, i))
    m = S.sum(n, lambda i: S.at(w0, i) * S.at(x0, i)) / W
    v = S.sum(n, lambda i: S.at(w0, i) * (S.at(x0, i) - m) * (S.at(x0, i) - m)) / W
    S.ensure("not negative", S.ge(r, 0))
    S.ensure("square is the weighted variance", S.eq(r * r, v, 1e-6, 1e-9 * (1 if S.sym else 1 + m * m)))
    S.ensure_forall("inputs unchanged", n, lambda i: S.and_(S.eq(S.at(x, i), S.at(x0, i), 0, 0), S.eq(S.at(w, i), S.at(w0, i), 0, 0)))


@contract("P27", [U + "linear_regression"])
def line(S):
    """an exact line is reproduced"""
    n = S.dim("n", 2)
    x, w = S.array("x", n), S.array("w", n, 0)
    a, b = S.real("a"), S.real("b")
    y = a + b * x
    s0 = S.sum(n, lambda i: S.at(w, i))
    s1 = S.sum(n, lambda i: S.at(w, i) * S.at(x, i))
    s2 = S.sum(n, lambda i: S.at(w, i) * S.at(x, i) * S.at(x, i))
    det = s0 * s2 - s1 * s1
    S.assume(S.gt(det, 0 if S.sym else 1e-3 * (1 + s0 * s2)))
    al, be = S.mod("utils").linear_regression(x, y, w)
    S.ensure("intercept", S.eq(al, a, 1e-5, 1e-5 * (1 if S.sym else 1 + abs(b) * np.abs(x).max())))
    S.ensure("slope", S.eq(be, b, 1e-5, 1e-5 * (1 if S.sym else 1 + abs(a) + abs(b))))


@contract("P27", [U + "linear_regression"])
def least_squares(S):
    """the result solves the normal equations"""
    n = S.dim("n", 2)
    x, y, w = S.array("x", n), S.array("y", n), S.array("w", n, 0)
    s0 = S.sum(n, lambda i: S.at(w, i))
    s1 = S.sum(n, lambda i: S.at(w, i) * S.at(x, i))
    s2 = S.sum(n, lambda i: S.at(w, i) * S.at(x, i) * S.at(x, i))
    sy = S.sum(n, lambda i: S.at(w, i) * S.at(y, i))
    sxy = S.sum(n, lambda i: S.at(w, i) * S.at(x, i) * S.at(y, i))
    S.assume(S.gt(s0 * s2 - s1 * s1, 0 if S.sym else 1e-3 * (1 + s0 * s2)))
    al, be = S.mod("utils").linear_regression(x, y, w)
    t = 1 if S.sym else 1 + s0 * np.abs(y).max() * (1 + np.abs(x).max()) + s0 * abs(al) * (1 + np.abs(x).max()) + s2 * abs(be)
    S.ensure("residuals average out", S.eq(al * s0 + be * s1, sy, 1e-6, 1e-6 * t))
    S.ensure("residuals are uncorrelated with x", S.eq(al * s1 + be * s2, sxy, 1e-6, 1e-6 * t))


@contract("P27", [U + "calc_linear_bins"])
def linear_bins(S):
    n, k = S.dim("n", 1), S.choice("bins", [1, 2, 3, 5, 10])
    x = S.array("x", n)
    b, c = S.mod("utils").calc_linear_bins(x, k)
    S.ensure("numbers of boundaries and centers", S.and_(S.eq(S.len(b), k + 1, 0, 0), S.eq(S.len(c), k, 0, 0)))
    lo, hi = S.at(b, 0), S.at(b, k)
    S.ensure_forall("first boundary is a lower bound", n, lambda i: S.le(lo, S.at(x, i), 1e-9, 1e-9))
    S.ensure_forall("last boundary is an upper bound", n, lambda i: S.ge(hi, S.at(x, i), 1e-9, 1e-9))
    S.ensure("first boundary is attained", S.exists(n, lambda i: S.eq(S.at(x, i), lo, 1e-9, 1e-9)))
    S.ensure("last boundary is attained", S.exists(n, lambda i: S.eq(S.at(x, i), hi, 1e-9, 1e-9)))
    for j in range(k):
        S.ensure("bins of equal width", S.eq(S.at(b, j + 1) - S.at(b, j), (hi - lo) / k, 1e-9, 1e-9))
        S.ensure("centers", S.eq(S.at(c, j) * 2, S.at(b, j) + S.at(b, j + 1), 1e-9, 1e-9))


@contract("P27", [U + "digitize"])
def digitised(S):
    n, m = S.dim("n", 0), S.dim("m", 1)
    x = S.array("x", n)
    bins = S.array("bins", m, order="strict")
    if not S.sym and "x" not in S.given and n:
        x[S.rng.random(n) < 0.4] = S.rng.choice(bins)
        x = S._rec("x", x)
    r = S.mod("utils").digitize(x, bins)
    S.ensure("one number per value", S.eq(S.len(r), n, 0, 0))

    def f(i):
        v, k = S.at(x, i), S.at(r, i)
        last = S.at(bins, m - 1)
        first = S.at(bins, 0)
        inside = lambda: S.and_(S.ge(k, 1, 0, 0), S.le(k, m - 1, 0, 0), S.le(S.at(bins, k - 1), v, 0, 0), S.lt(v, S.at(bins, k)))
        return S.and_(
            S.implies(S.ge(v, last, 0, 0), lambda: S.eq(k, m - 1, 0, 0)),
            S.implies(S.and_(S.lt(v, first), S.lt(v, last)), lambda: S.eq(k, 0, 0, 0)),
            S.implies(S.and_(S.ge(v, first, 0, 0), S.lt(v, last)), inside),
        )

    S.ensure_forall("bin of the value", n, f)


@contract("P27", [U + "get_normalized_values"])
def normalised(S):
    """bounded in the number of values (up to 4 symbolically)"""
    k = S.choice("k", [1, 2, 3, 4])
    v = [S.real("v%d" % i, 0) for i in range(k)]
    tot = sum(v[1:], v[0])
    S.assume(S.ge(tot, 1e-6))
    r = S.mod("utils").get_normalized_values(v)
    S.ensure("as many", len(r) == k)
    S.ensure("sum to one", S.eq(sum(r[1:], r[0]), 1, 1e-9, 1e-9))
    for i in range(k):
        S.ensure("proportional", S.eq(r[i] * tot, v[i], 1e-9, 1e-12))


@bounded("P27", [U + "get_normalized_values"], trials=60)
def normalised_any(S):
    """bounded: any number of values, also all zero"""
    rng = S.rng
    v = list(rng.uniform(0, 3, int(rng.integers(1, 30))) * (rng.random() < 0.8))
    v0 = list(v)
    r = S.mod("utils").get_normalized_values(v)
    S.ensure("as many", len(r) == len(v0))
    S.ensure("normalised", np.allclose(r, np.array(v0) / sum(v0)) if sum(v0) >= 1e-6 else list(r) == v0)
    S.ensure("argument unchanged", v == v0)


@contract("P27", [U + "slice_finite_semi_positive"])
def usable(S):
    n = S.dim("n", 0)
    x = S.array("x", n, kind="any")
    r = S.mod("utils").slice_finite_semi_positive(x)
    S.ensure_forall("finite and not negative (vector)", n, lambda i: S.iff(S.at(r, i), S.and_(S.isfinite(S.at(x, i)), S.ge(S.at(x, i), 0, 0, 0))))


@bounded("P27", [U + "slice_finite_semi_positive", U + "not_seen_events", U + "nans", U + "get_X_column", U + "get_feature_column_names"], trials=150)
def usable_rows(S):
    rng = S.rng
    n, k = S.int("n", 0, 8), S.int("k", 1, 3)
    x = rng.choice([0.0, 1.0, 2.0, -1.0, np.nan, np.inf, -np.inf, 0.5], (n, k))
    u = S.mod("utils")
    want = [bool(np.isfinite(r).all() and (r >= 0).all()) for r in x]
    x1 = x.copy()
    S.ensure("rows of an array", list(u.slice_finite_semi_positive(x1)) == want)
    S.ensure("rows of a frame", list(u.slice_finite_semi_positive(pd.DataFrame(x))) == want)
    S.ensure("data unchanged", np.array_equal(x1, x, equal_nan=True))
    a = u.nans((n, k))
    S.ensure("array of nan", a.shape == (n, k) and bool(np.isnan(a).all()))
    df = pd.DataFrame(x, columns=list("abc")[:k])
    c = list("abc")[:k]
    pick = [int(j) for j in rng.permutation(k)]
    names = [c[j] for j in pick]
    eq = lambda p, q: p.shape == q.shape and np.array_equal(p, q, equal_nan=True)
    one = len(pick) == 1
    S.ensure("columns of a frame", eq(u.get_X_column(df, tuple(names)), x[:, pick[0]] if one else x[:, pick]))
    S.ensure("columns of an array", eq(u.get_X_column(x, pick), x[:, pick[0]] if one else x[:, pick]))
    S.ensure("one column", eq(u.get_X_column(df, names[0]), x[:, pick[0]]))
    S.ensure("one column kept two-dimensional", eq(u.get_X_column(df, names[0], array_for_1_dim=False), x[:, pick[:1]]))
    S.ensure("columns kept two-dimensional", eq(u.get_X_column(df, names, array_for_1_dim=False), x[:, pick]))
    S.ensure("column names", u.get_feature_column_names(df) == c and u.get_feature_column_names(df, [names[0], "zz"]) == [q for q in c if q != names[0]])
    # bins without weight
    nb = [int(q) for q in rng.integers(1, 4, k)]
    tot = int(np.prod(nb))
    wx = rng.choice([0.0, 1.0, 2.5], tot + int(rng.integers(0, 2)))
    xb = np.column_stack([rng.choice(list(range(q)) + [-1, np.nan], n) for q in nb]) if n else np.zeros((0, k))
    got = u.not_seen_events(xb.copy(), wx, np.array(nb))
    for i in range(n):
        r = xb[i]
        if np.isfinite(r).all() and (r >= 0).all():
            e = wx[int(np.ravel_multi_index(r.astype(int), nb))] == 0
        else:
            e = wx[tot] == 0 if len(wx) > tot else True
        S.ensure("bins without weight are unseen", bool(got[i]) == bool(e))


def _table(S):
    n = S.dim("n", 1)
    y, w = S.array("y", n), S.array("w", n, 0)
    if not S.sym and "w" not in S.given:
        y = S._rec("y", np.round(y) if S.rng.random() < 0.5 else y)
        w[S.rng.random(n) < 0.3] = 0.0
        w = S._rec("w", w)
    S.assume(S.gt(S.sum(n, lambda i: S.at(w, i)), 0 if S.sym else 1e-3))
    return n, y, w, S.frame({"y": y, "weights": w})


def _is_quantile(S, n, y, w, q, r):
    """smallest value whose cumulated weight reaches the share"""
    cut = S.sum(n, lambda i: S.at(w, i)) * q
    upto = S.sum(n, lambda i: S.ite(S.le(S.at(y, i), r, 0, 0), S.at(w, i), 0.0))
    below = S.sum(n, lambda i: S.ite(S.lt(S.at(y, i), r), S.at(w, i), 0.0))
    S.ensure("one of the values", S.exists(n, lambda i: S.eq(S.at(y, i), r, 0, 0)))
    S.ensure("its weight reaches the share", S.ge(upto, cut, 1e-9, 1e-9))
    S.ensure("no smaller value reaches the share", S.le(below, cut, 1e-9, 1e-9) if not S.sym else S.lt(below, cut))


@contract("P27", [U + "_weighted_quantile_of_dataframe", U + "_weighted_median_of_dataframe"])
def table_quantile(S):
    n, y, w, x = _table(S)
    u = S.mod("utils")
    if S.choice("kind", ["quantile", "median"]) == "quantile":
        q = S.real("q", 0, 1)
        S.assume(S.gt(q, 0))
        r = u._weighted_quantile_of_dataframe(q)(x)
    else:
        q, r = 0.5, u._weighted_median_of_dataframe(x)
    _is_quantile(S, n, y, w, q, r)
    S.ensure_forall("table unchanged", n, lambda i: S.and_(S.eq(S.at(x["y"], i), S.at(y, i), 0, 0), S.eq(S.at(x["weights"], i), S.at(w, i), 0, 0)))


@contract("P27", [U + "_weighted_mean_of_dataframe", U + "_weighted_size_of_dataframe"])
def table_mean(S):
    n, y, w, x = _table(S)
    u = S.mod("utils")
    m, s = u._weighted_mean_of_dataframe(x), u._weighted_size_of_dataframe(x)
    W = S.sum(n, lambda i: S.at(w, i))
    S.ensure("size is the sum of the weights", S.eq(s, W, 1e-9, 1e-9))
    S.ensure("mean", S.eq(m * W, S.sum(n, lambda i: S.at(w, i) * S.at(y, i)), 1e-9, 1e-9 * (1 if S.sym else 1 + W * np.abs(y).max())))


@bounded("P27", [U + "_weighted_quantile_of_dataframe", U + "_weighted_median_of_dataframe", U + "_weighted_mean_of_dataframe", U + "_weighted_size_of_dataframe", U + "calc_weighted_quantile", U + "calc_means_medians", U + "_calc_means_medians_with_weights", U + "_calc_means_medians_evenly_weighted"], trials=150)
def grouped(S):
    """bounded: weighted means, medians, quantiles and sizes per bin of random tables"""
    rng = S.rng
    n = S.int("n", 1, 25)
    y = rng.integers(0, 6, n).astype(float) if rng.random() < 0.5 else rng.normal(size=n)
    w = rng.integers(1, 5, n).astype(float)
    if rng.random() < 0.5:
        w[rng.random(n) < 0.2] = 0.0
    if w.sum() == 0:
        w[0] = 1.0
    b = rng.integers(0, 4, n).astype(float)
    q = float(rng.choice([0.1, 0.25, 0.5, 0.9, 1.0]))
    u = S.mod("utils")
    y0, w0, b0 = y.copy(), w.copy(), b.copy()
    res = util.quiet(u.calc_weighted_quantile, b, y, w, q)
    even = len(np.unique(w)) == 1
    means, medians, counts, errors = u.calc_means_medians(b, y, w)
    m2, med2, c2, e2 = u.calc_means_medians(b, y)
    lv = [u.LOWER_1_SIGMA_QUANTILE, 1 - u.LOWER_1_SIGMA_QUANTILE, u.LOWER_2_SIGMA_QUANTILE, 1 - u.LOWER_2_SIGMA_QUANTILE]

    def quant(ys, ws, q):
        # smallest value whose cumulated weight reaches the share
        for v in np.sort(ys):
            if ws[ys <= v].sum() >= ws.sum() * q - 1e-9:
                return v
        return ys.min()

    S.ensure("same data afterwards", np.array_equal(y, y0) and np.array_equal(w, w0) and np.array_equal(b, b0))
    S.ensure("all bins with data", sorted(res.index) == sorted(set(b)) == sorted(means.index))
    for k in sorted(set(b)):
        ys, ws = y[b == k], w[b == k]
        S.ensure("even mean", np.isclose(m2[k], ys.mean()))
        S.ensure("even median", np.isclose(med2[k], np.median(ys)))
        S.ensure("even size", c2[k] == len(ys))
        for e, l in zip(e2, lv):
            S.ensure("even errors", np.isclose(e[k], np.quantile(ys, l) - np.median(ys)))
        if ws.sum() == 0:
            continue
        S.ensure("weighted quantile", np.isclose(res[k], quant(ys, ws, q)))
        if not even:
            S.ensure("weighted mean", np.isclose(means[k], (ys * ws).sum() / ws.sum()))
            S.ensure("weighted median", np.isclose(medians[k], quant(ys, ws, 0.5)))
            S.ensure("weighted size", np.isclose(counts[k], ws.sum()))
            for e, l in zip(errors, lv):
                S.ensure("weighted errors", np.isclose(e[k], quant(ys, ws, l) - quant(ys, ws, 0.5)))


@contract("P27", [U + "continuous_quantile_from_discrete_pdf"], budget=150)
def discrete_sample(S):
    """between the weighted quantile and the next unit; the value itself when observed once"""
    n = S.dim("n", 1)
    y, w = S.array("y", n), S.array("w", n, 0)
    if not S.sym and "w" not in S.given:
        y = S._rec("y", np.round(y) if S.rng.random() < 0.7 else y)
        w = S._rec("w", w + 0.01)
    S.assume_forall(n, lambda i: S.gt(S.at(w, i), 0))
    q = S.real("q", 0, 1)
    S.assume(S.gt(q, 0 if S.sym else 1e-6))
    y0, w0 = S.copy(y), S.copy(w)
    r = S.mod("utils").continuous_quantile_from_discrete_pdf(y, q, w)
    cut = S.sum(n, lambda i: S.at(w0, i)) * q
    upto = S.sum(n, lambda i: S.ite(S.le(S.at(y0, i), r, 0, 0), S.at(w0, i), 0.0))
    below = S.sum(n, lambda i: S.ite(S.lt(S.at(y0, i), r - 1), S.at(w0, i), 0.0))
    S.ensure("not below the weighted quantile", S.ge(upto, cut, 1e-9, 1e-9))
    S.ensure("at most one above the weighted quantile", S.le(below, cut, 1e-9, 1e-9) if not S.sym else S.lt(below, cut))
    S.ensure_forall("inputs unchanged", n, lambda i: S.and_(S.eq(S.at(y, i), S.at(y0, i), 0, 0), S.eq(S.at(w, i), S.at(w0, i), 0, 0)))


@bounded("P27", [U + "continuous_quantile_from_discrete_pdf"], trials=400)
def discrete_quantile(S):
    """bounded: the quantile of a discrete sample lies in the unit interval above the weighted quantile"""
    rng = S.rng
    n = S.int("n", 1, 30)
    y = rng.integers(0, 6, n).astype(float) if rng.random() < 0.6 else rng.normal(size=n)
    w = rng.integers(1, 5, n).astype(float)
    if rng.random() < 0.5:
        w[rng.random(n) < 0.3] = 0.0
    if w.sum() == 0:
        w[0] = 1.0
    q = float(rng.uniform(0.02, 0.98))
    y0, w0 = y.copy(), w.copy()
    f = S.mod("utils").continuous_quantile_from_discrete_pdf
    r = f(y, q, w)
    S.ensure("data unchanged", np.array_equal(y, y0) and np.array_equal(w, w0))
    v = min(v for v in y if w[y <= v].sum() >= w.sum() * q)
    S.ensure("not below the weighted quantile, at most one above", v - 1e-12 <= r <= v + 1 + 1e-12)
    S.ensure("single observation is the quantile itself", (y[w > 0] == v).sum() > 1 or r == v)
    p = rng.permutation(n)
    S.ensure("order of samples does not matter for even weights", np.isclose(f(y[p], q, np.ones(n)), f(y, q, np.ones(n))))
    q2 = float(rng.uniform(q, 1.0))
    S.ensure("grows with the share", f(y, q2, np.ones(n)) >= f(y, q, np.ones(n)) - (1 + 1e-12))
    S.ensure("zero weights do not matter", np.isclose(f(np.r_[y, 99.0], q, np.r_[w, 0.0]), r))


@bounded("P27", [U + "neutralize_one_dim_influence"], trials=200)
def neutral(S):
    rng = S.rng
    sh = (S.int("r", 1, 6), S.int("c", 1, 6))
    v, u = rng.normal(size=sh), rng.uniform(0.1, 3, sh)
    v0, u0 = v.copy(), u.copy()
    r = S.mod("utils").neutralize_one_dim_influence(v, u)
    S.ensure("same shape", r.shape == sh)
    S.ensure("inputs unchanged", np.array_equal(v, v0) and np.array_equal(u, u0))
    dd = lambda a: a - a[:1] - a[:, :1] + a[0, 0]
    S.ensure("differences of differences kept", np.allclose(dd(r), dd(v0)))
    S.ensure("no net shift of the columns", np.allclose((r * u).sum(axis=0), 0, atol=1e-8))
    n0 = np.abs((v0 * u).sum(axis=1)).sum() + np.abs((v0 * u).sum(axis=0)).sum()
    n1 = np.abs((r * u).sum(axis=1)).sum() + np.abs((r * u).sum(axis=0)).sum()
    S.ensure("net shifts get small", n1 <= max(0.5 * n0, 0.01) + 1e-9)


@contract("P27", [U + "neutralize_one_dim_influence"], max_paths=60)
def neutral_two(S):
    """symbolic 2x2 and 2x3 tables: differences of differences are kept (bounded in the shape)"""
    k = S.choice("columns", [2, 3])
    v, u = S.array("v", (2, k)), S.array("u", (2, k), 0.1, 3)
    S.unroll()
    v0 = S.copy(v)
    r = S.mod("utils").neutralize_one_dim_influence(v, u)
    for j in range(1, k):
        S.ensure("differences of differences kept", S.eq(S.at(r, 0, 0) - S.at(r, 1, 0) - S.at(r, 0, j) + S.at(r, 1, j), S.at(v0, 0, 0) - S.at(v0, 1, 0) - S.at(v0, 0, j) + S.at(v0, 1, j), 1e-6, 1e-6))


@bounded("P27", [U + "smear_discrete_cdftruth", U + "smear_discrete_cdftruth_qpd"], trials=60)
def smear(S):
    import types

    rng = S.rng
    u = S.mod("utils")
    import scipy.stats as st

    d = st.poisson(float(rng.uniform(0.2, 6)))
    y = rng.integers(0, 9, 12)
    for k in y:
        r = u.smear_discrete_cdftruth(d.cdf, int(k))
        S.ensure("between the neighbouring values of the cdf", (d.cdf(k - 1) if k >= 1 else 0.0) - 1e-12 <= r <= d.cdf(k) + 1e-12)
    r = u.smear_discrete_cdftruth_qpd(types.SimpleNamespace(cdf=lambda x, inner=False: d.cdf(x)), y)
    S.ensure("between the neighbouring values of the cdf (many)", len(r) == len(y) and bool(((r >= np.where(y >= 1, d.cdf(y - 1), 0) - 1e-12) & (r <= d.cdf(y) + 1e-12)).all()))


@contract("P27", [U + "neutralize_one_dim_influence"], budget=120)
def neutral_any(S):
    """tables of any shape: differences of differences are kept, no column is shifted on balance"""
    a, b = S.dim("rows", 1), S.dim("columns", 1)
    v, u = S.array("v", (a, b)), S.array("u", (a, b), 0.1, 3)
    v0, u0 = S.copy(v), S.copy(u)
    i, j = S.int("i", 0), S.int("j", 0)
    S.assume(S.and_(S.lt(i, a), S.lt(j, b)))

    def dd(t, i, j):
        return S.at(t, i, j) - S.at(t, i, 0) - S.at(t, 0, j) + S.at(t, 0, 0)

    S.lemma("weights of a column", S.gt(S.sum(a, lambda k: S.at(u, k, j)), 0))

    def shift(t):
        return S.sum(a, lambda k: S.at(t, k, j) * S.at(u, k, j))

    S.invariant(
        "neutralize_one_dim_influence#",
        lambda st: [
            ("differences of differences so far", S.eq(dd(st.values, i, j), dd(v0, i, j), 1e-6, 1e-6)),
            ("no shift of a column so far", S.or_(S.and_(S.eq(st.iteration, 0, 0, 0), S.gt(st.deviation, 1)), S.eq(shift(st.values), 0, 0, 1e-6))),
        ],
        rebinds={"values": ((a, b), "f"), "S0": ((a,), "f"), "S1": ((b,), "f")},
    )
    r = S.mod("utils").neutralize_one_dim_influence(v, u)
    S.ensure("shape kept", S.and_(S.eq(S.shape(r)[0], a, 0, 0), S.eq(S.shape(r)[1], b, 0, 0)))
    S.ensure("differences of differences kept", S.eq(dd(r, i, j), dd(v0, i, j), 1e-6, 1e-6))
    S.ensure("no net shift of a column", S.eq(shift(r), 0, 0, 1e-6))
    S.ensure("inputs unchanged", S.and_(S.eq(S.at(v, i, j), S.at(v0, i, j), 0, 0), S.eq(S.at(u, i, j), S.at(u0, i, j), 0, 0)))


@contract("P27", [U + "smear_discrete_cdftruth", U + "smear_discrete_cdftruth_qpd"], trials=100)
def smear_any(S):
    """any distribution function, any draw: between the values of the distribution function at the neighbours"""
    u = S.mod("utils")
    import types

    n = S.dim("n", 1)
    y, draw = S.array("y", n, 0, 9, dtype="i"), S.array("draw", n, 0, 1)
    cdf = S.fn("cdf", 1, 0, 1)
    many = S.choice("many", [True, False])
    k = S.int("k", 0)
    S.assume(S.lt(k, n))
    S.stub(u.np.random, "uniform", lambda low=0.0, high=1.0, size=None: low + (high - low) * (S.copy(draw) if size is not None else S.at(draw, k)))
    high = cdf(S.at(y, k) * 1.0)
    low = S.ite(S.ge(S.at(y, k), 1, 0, 0), cdf(S.at(y, k) - 1.0), 0.0)
    if many:
        r = S.at(u.smear_discrete_cdftruth_qpd(types.SimpleNamespace(cdf=lambda x, inner=False: cdf(x * 1.0)), y), k)
    else:
        r = u.smear_discrete_cdftruth(lambda x: cdf(x * 1.0), S.at(y, k))
    S.ensure("between the neighbouring values", S.implies(S.ge(high, low, 0, 0), lambda: S.and_(S.ge(r, low, 1e-9, 1e-9), S.le(r, high, 1e-9, 1e-9))))
