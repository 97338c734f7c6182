"""P06: construction of bin boundaries and cumulative shares."""
import numpy as np
import pandas as pd

from . import stubs
from ..spec import bounded, contract

EC = "cyclic_boosting.binning.ecdf_transformer."
SITE = "ecdf_transformer.reduce_cdf_and_boundaries_to_nbins#"


def _curve(S):
    """distinct sorted values with their cumulative weight shares"""
    n = S.dim("n", 1)
    bx = S.array("values", n, order="strict")
    if S.sym or "shares" in S.given:
        cx = S.array("shares", n, lo=0, lo_open=True, hi=1, order="strict")
    else:
        w = S.rng.choice([1.0, 1.0, 2.0, 5.0, 40.0], size=n) if S.rng.random() < 0.5 else S.rng.random(n) + 1e-3
        cx = np.cumsum(w) / np.sum(w)
        cx[-1] = 1.0
        S._rec("shares", cx)
    S.assume(S.eq(S.at(cx, n - 1), 1, 0, 0))
    return n, bx, cx


def _posts(S, n, bx, cx, nb, out):
    bb, cdf = out
    m = S.len(bb)
    S.ensure("as many shares as boundaries", S.eq(S.len(cdf), m, 0, 0))
    S.ensure("at most one boundary more than bins requested", S.and_(m <= nb + 1, m >= 2))
    S.ensure("the first boundary is the smallest value", S.eq(S.at(bb, 0), S.at(bx, 0), 0, 0))
    S.ensure("the shares start at zero", S.eq(S.at(cdf, 0), 0, 0, 0))
    S.ensure_forall("boundaries never decrease", m - 1, lambda j: S.at(bb, j) <= S.at(bb, j + 1))
    S.ensure_forall("shares never decrease", m - 1, lambda j: S.at(cdf, j) <= S.at(cdf, j + 1))
    S.ensure_forall("boundaries within the values", m, lambda j: S.and_(S.at(bx, 0) <= S.at(bb, j), S.at(bb, j) <= S.at(bx, n - 1)))
    S.ensure_forall(
        "a boundary carries the share of the values not above it",
        (m, n),
        lambda j, p: S.implies(
            S.and_(j >= 1, S.eq(S.at(bb, j), S.at(bx, p), 0, 0)),
            lambda: S.eq(S.at(cdf, j), S.at(cx, p), 0, 1e-12 if not S.sym else 0),
        ),
    )
    S.ensure_forall(
        "every boundary is a value of the data",
        (m, n - 1),
        lambda j, p: S.not_(S.and_(S.at(bx, p) < S.at(bb, j), S.at(bb, j) < S.at(bx, p + 1))),
    )


@contract("P06", [EC + "reduce_cdf_and_boundaries_to_nbins"], trials=200)
def reduce(S):
    stubs.use_ge_lim(S)
    S.loose_mod()
    m = S.mod("binning.ecdf_transformer")
    n, bx, cx = _curve(S)
    nb = S.dim("n_bins", 2)
    eps = S.real("epsilon", 0, 1e-3, lo_open=True)
    tol = S.real("tolerance", 0, 1)

    def inv(st):
        pos = st.trace.get("pos")
        return [
            ("room for all boundaries", S.eq(st.n_cdf, nb + 1, 0, 0)),
            ("the position is within the values", S.and_(st.index >= 0, st.index < n)),
            ("the last share is the one at the position", S.eq(st.previous_cdf, S.ite(st.k >= 1, S.at(cx, st.index), 0), 0, 0)),
            ("the start", S.and_(S.eq(S.at(st.cdf, 0), 0, 0, 0), S.eq(S.at(st.bin_boundaries, 0), S.at(bx, 0), 0, 0))),
            ("positions within the values", st.k + 1, lambda j: S.and_(pos(j) >= 0, pos(j) < n)),
            ("boundaries so far", st.k + 1, lambda j: S.eq(S.at(st.bin_boundaries, j), S.at(bx, pos(j)), 0, 0)),
            ("shares so far", st.k + 1, lambda j: S.implies(j >= 1, lambda: S.eq(S.at(st.cdf, j), S.at(cx, pos(j)), 0, 0))),
            ("positions never decrease", st.k, lambda j: pos(j) <= pos(j + 1)),
        ]

    S.invariant(SITE, inv, arrays=("cdf", "bin_boundaries"), traces={"pos": lambda st: st.index})
    exc, out = S.call(m.reduce_cdf_and_boundaries_to_nbins, bx, cx, nb, eps, tol)
    S.ensure("no error", exc is None)
    _posts(S, n, bx, cx, nb, out)


@contract("P06", [EC + "reduce_cdf_and_boundaries_to_nbins"], trials=200)
def reduce_end(S):
    """the last boundary: progress of at least one share per iteration"""
    stubs.use_ge_lim(S)
    m = S.mod("binning.ecdf_transformer")
    n, bx, cx = _curve(S)
    nb = S.choice("n_bins", [2, 3, 4, 10])
    eps = S.real("epsilon", 1e-12, 1e-4)
    tol = S.real("tolerance", 0, 0.9)
    # every value but the last leaves more than the comparison thresholds for the others
    S.assume(S.implies(n > 1, lambda: S.at(cx, n - 2) < 1 - (nb + 1) * eps))

    share = 1.0 / nb
    least = share * (1 - tol) - 2 * eps

    def inv(st):
        k, pos = st.k, st.trace.get("pos")
        return [
            ("room for all boundaries", S.eq(st.n_cdf, nb + 1, 0, 0)),
            ("the position is within the values", S.and_(st.index >= 0, st.index < n)),
            ("the last share is the one at the position", S.eq(st.previous_cdf, S.ite(k >= 1, S.at(cx, st.index), 0), 0, 0)),
            ("the last entry", S.implies(k >= 1, lambda: S.and_(S.eq(S.at(st.cdf, k), S.at(cx, st.index), 0, 0), S.eq(S.at(st.bin_boundaries, k), S.at(bx, st.index), 0, 0)))),
            ("positions within the values", k + 1, lambda j: S.and_(pos(j) >= 0, pos(j) < n)),
            ("shares so far", k + 1, lambda j: S.eq(S.at(st.cdf, j), S.ite(j >= 1, S.at(cx, pos(j)), 0), 0, 0)),
            ("weight of the bins so far", k, lambda j: S.at(st.cdf, j + 1) - S.at(st.cdf, j) >= least),
            ("one share per iteration", st.previous_cdf >= k * (1.0 / nb) - k * eps),
        ]

    S.invariant(SITE, inv, arrays=("cdf", "bin_boundaries"), traces={"pos": lambda st: st.index})
    exc, out = S.call(m.reduce_cdf_and_boundaries_to_nbins, bx, cx, nb, eps, tol)
    S.ensure("no error", exc is None)
    bb, cdf = out
    last = S.len(bb) - 1
    S.ensure("the last boundary is the largest value", S.eq(S.at(bb, last), S.at(bx, n - 1), 0, 0))
    S.ensure("the shares end at one", S.eq(S.at(cdf, last), 1, 0, 0))
    S.ensure_forall("every bin has its share of the weight", last, lambda j: S.at(cdf, j + 1) - S.at(cdf, j) >= least)


@contract("P06", ["cyclic_boosting.binning._utils.minimal_difference"], trials=150)
def spacing(S):
    m = S.mod("binning._utils")
    n = S.dim("n", 1)
    v = S.array("values", n)
    exc, d = S.call(m.minimal_difference, v)
    S.ensure("no error", exc is None)
    S.ensure("positive", d > 0)
    S.ensure_forall("not above any positive distance", n - 1, lambda i: S.implies(S.at(v, i + 1) > S.at(v, i), lambda: d <= S.at(v, i + 1) - S.at(v, i)))


@contract("P06", [EC + "ECdfTransformer.fit", EC + "ECdfTransformer._normalize_bins"], trials=60)
def table(S):
    """fit hands every column and the weights to the two functions above and stores their result"""
    m = S.mod("binning.ecdf_transformer")
    flags = S.mod("flags")
    rows = S.dim("rows", 1)
    weighted = S.choice("weighted", [True, False])
    kind = S.choice("kind", [flags.IS_CONTINUOUS, flags.IS_ORDERED, flags.IS_UNORDERED | flags.HAS_MISSING])
    cols = {"a": S.array("a", rows, kind="any"), "b": S.array("b", rows, kind="any")}
    if weighted:
        cols["w"] = S.array("w", rows, lo=0)
    X = S.frame(cols)
    nbs = S.choice("bins", [5, {"a": 3, "b": 7}])
    n = S.dim("n", 0)
    k = S.dim("k", 2)
    seen = []
    u = S.array("u", n)
    c = S.array("c", n, lo=0, hi=1)
    bb = S.array("bb", k)
    cdf = S.array("cdf", k, lo=0, hi=1)
    gap = S.real("gap", 0, lo_open=True)

    def spacing(values):
        seen.append(("spacing", values))
        return gap

    def shares(z, w):
        seen.append(("shares", z, w))
        return u, c, S.sum(rows, lambda i: S.at(w, i)), 0

    def reduce(bins_x, cdf_x, n_bins, epsilon, tolerance):
        seen.append(("reduce", bins_x, cdf_x, n_bins, epsilon, tolerance))
        return bb, cdf

    S.stub(m, "minimal_difference", spacing, needed=False)
    S.stub(m, "calculate_cdf_from_weighted_data", shares)
    S.stub(m, "reduce_cdf_and_boundaries_to_nbins", reduce, needed=False)
    t = m.ECdfTransformer(n_bins=nbs, feature_properties={"a": kind, "b": flags.IS_CONTINUOUS}, weight_column="w" if weighted else None, epsilon=1e-7, tolerance=0.25)
    exc, r = S.call(t.fit, X)
    S.ensure("no error", exc is None and r is t)
    S.ensure("one entry per feature", [e[0] for e in t.bins_and_cdfs_] == ["a", "b"])
    calls = [e for e in seen if e[0] == "shares"]
    S.ensure("one column at a time", len(calls) == 2)
    for name, (_, z, w) in zip(("a", "b"), calls):
        S.ensure_forall("the values of the column", rows, lambda i: S.eq(S.at(z, i), S.at(cols[name], i), 0, 0))
        S.ensure_forall("the weights of the rows", rows, lambda i: S.eq(S.at(w, i), S.at(cols["w"], i) if weighted else 1, 0, 0))
    gaps = [e for e in seen if e[0] == "spacing"]
    red = [e for e in seen if e[0] == "reduce"]
    for name, eps, b in t.bins_and_cdfs_:
        if b is None:
            S.ensure("no bins only without usable values", S.eq(n, 0, 0, 0))
            continue
        S.ensure("usable values", n >= 1)
        if name == "a" and kind != flags.IS_CONTINUOUS:
            S.ensure("one boundary per value and the start", S.eq(S.shape(b)[0], n + 1, 0, 0))
            S.ensure("start", S.and_(S.eq(S.at(b, 0, 0), S.at(u, 0), 0, 0), S.eq(S.at(b, 0, 1), 0, 0, 0)))
            S.ensure_forall("one bin per distinct value", n, lambda i: S.and_(S.eq(S.at(b, i + 1, 0), S.at(u, i), 0, 0), S.eq(S.at(b, i + 1, 1), S.at(c, i), 0, 0)))
        else:
            _, bx, cx, nb, e, tol = red.pop(0)
            S.ensure("bins requested for this column", nb == (nbs if isinstance(nbs, int) else nbs[name]))
            S.ensure("thresholds as configured", e == 1e-7 and tol == 0.25)
            S.ensure("all values", S.and_(S.eq(S.len(bx), n, 0, 0), S.eq(S.len(cx), n, 0, 0)))
            S.ensure_forall("values and shares of the column", n, lambda i: S.and_(S.eq(S.at(bx, i), S.at(u, i), 0, 0), S.eq(S.at(cx, i), S.at(c, i), 0, 0)))
            S.ensure("all boundaries", S.eq(S.shape(b)[0], k, 0, 0))
            S.ensure_forall("boundaries and shares", k, lambda i: S.and_(S.eq(S.at(b, i, 0), S.at(bb, i), 0, 0), S.eq(S.at(b, i, 1), S.at(cdf, i), 0, 0)))
        _, values = gaps.pop(0)
        S.ensure("the threshold is relative to the smallest distance", S.eq(eps, 1e-7 * gap))
        S.ensure("of the boundaries of this column", S.eq(S.len(values), S.shape(b)[0], 0, 0))
        S.ensure_forall("all its boundaries", S.shape(b)[0], lambda i: S.eq(S.at(values, i), S.at(b, i, 0), 0, 0))
    S.ensure("nothing else was reduced", not red)


def _column(rng, n):
    kind = rng.integers(0, 5)
    if kind == 0:
        v = rng.normal(0, 1, n)
    elif kind == 1:
        v = rng.integers(-3, 6, n).astype(float)
    elif kind == 2:
        v = np.exp(rng.normal(0, 4, n))
    elif kind == 3:
        v = np.where(rng.random(n) < 0.6, 0.0, rng.random(n))
    else:
        v = np.full(n, float(rng.integers(-2, 3)))
    if rng.random() < 0.6:
        bad = rng.random(n) < rng.choice([0.1, 0.4, 1.0], p=[0.5, 0.4, 0.1])
        v = np.where(bad, rng.choice([np.nan, np.nan, np.inf, -np.inf], size=n), v)
    return v


def _weights(rng, n):
    kind = rng.integers(0, 4)
    if kind == 0:
        return np.ones(n)
    if kind == 1:
        return rng.integers(0, 4, n).astype(float)
    if kind == 2:
        return rng.random(n) * (rng.random(n) < 0.7)
    return rng.choice([0.0, 0.5, 1.0, 20.0], size=n)


def _oracle(z, w):
    """distinct usable values and the weight share of all values not above each"""
    ok = np.isfinite(z)
    z, w = z[ok], w[ok]
    vals = [v for v in sorted(set(z.tolist())) if w[z == v].sum() != 0]
    tot = w.sum()
    return np.array(vals), np.array([w[z <= v].sum() / tot for v in vals])


@contract("P06", [EC + "calculate_cdf_from_weighted_data"])
def weight_shares(S):
    """no missing values: every share is the weight of all values not above, divided by the total weight"""
    n = S.dim("n", 1)
    z, w = S.array("z", n), S.array("w", n, 0)
    if not S.sym and "z" not in S.given:
        z = S._rec("z", np.round(z))
        w[S.rng.random(n) < 0.3] = 0.0
        w = S._rec("w", w)
    z0, w0 = S.copy(z), S.copy(w)
    usable = lambda i, x: S.ite(S.isfinite(S.at(z0, i)), x, 0.0)
    W = S.sum(n, lambda i: usable(i, S.at(w0, i)))
    S.assume(S.gt(W, 0 if S.sym else 1e-3))
    u, cdf, tot, miss = S.mod("binning.ecdf_transformer").calculate_cdf_from_weighted_data(z, w)
    m = S.len(u)
    S.ensure("as many shares", S.eq(S.len(cdf), m, 0, 0))
    S.ensure("total weight", S.eq(tot, W, 1e-9, 1e-9))
    S.ensure("number of missing values", S.eq(miss, S.sum(n, lambda i: S.ite(S.isfinite(S.at(z0, i)), 0, 1)), 0, 0))
    S.ensure_forall("inputs unchanged", n, lambda i: S.and_(S.eq(S.at(z, i), S.at(z0, i), 0, 0), S.eq(S.at(w, i), S.at(w0, i), 0, 0)))
    k = S.int("k", 0)
    S.assume(S.lt(k, m))
    v = S.at(u, k)
    S.ensure("weight share of the values not above", S.eq(S.at(cdf, k) * W, S.sum(n, lambda i: usable(i, S.ite(S.le(S.at(z0, i), v, 0, 0), S.at(w0, i), 0.0))), 1e-9, 1e-9))
    S.ensure("one of the values", S.exists(n, lambda i: S.eq(S.at(z0, i), v, 0, 0)))
    S.ensure_forall("values increase", m, lambda j: S.implies(S.lt(k, j), lambda: S.lt(v, S.at(u, j))))


@bounded("P06", [EC + "calculate_cdf_from_weighted_data"], trials=200)
def shares(S):
    m = S.mod("binning.ecdf_transformer")
    n = int(S.rng.integers(0, 40))
    z = S._rec("z", _column(S.rng, n))
    w = S._rec("w", _weights(S.rng, n))
    z0, w0 = z.copy(), w.copy()
    exc, out = S.call(m.calculate_cdf_from_weighted_data, z, w)
    S.ensure("no error", exc is None)
    u, c, tot, miss = out
    vals, sh = _oracle(z, w)
    S.ensure("the distinct usable values in increasing order", np.array_equal(u, vals))
    S.ensure("as many shares", len(c) == len(vals))
    S.ensure("weight share of the values not above", np.allclose(c, sh, rtol=1e-9, atol=1e-12))
    S.ensure("total weight of the usable values", np.isclose(tot, w[np.isfinite(z)].sum()))
    S.ensure("number of missing values", int(miss) == int((~np.isfinite(z)).sum()))
    S.ensure("inputs unchanged", np.array_equal(z, z0, equal_nan=True) and np.array_equal(w, w0))
    exc, out = S.call(m.calculate_cdf_from_weighted_data, z, np.append(w, 1.0))
    S.ensure("different lengths are rejected", exc is not None and type(exc).__name__ == "ValueError")


def _bins(est):
    return {c: (e, b) for c, e, b in est.bins_and_cdfs_}


@bounded("P06", [EC + "ECdfTransformer.fit", EC + "ECdfTransformer._normalize_bins", EC + "get_weight_column", EC + "get_X_column", EC + "get_feature_column_names_or_indices", EC + "reduce_cdf_and_boundaries_to_nbins"], trials=400)
def fitted(S):
    m = S.mod("binning.ecdf_transformer")
    flags = S.mod("flags")
    rng = S.rng
    n = int(rng.integers(1, 60)) if rng.random() < 0.8 else int(rng.integers(60, 400))
    cols = {k: _column(rng, n) for k in ["a", "b", "c"][: int(rng.integers(1, 4))]}
    weighted = rng.random() < 0.6
    w = _weights(rng, n) if weighted else np.ones(n)
    S._rec("columns", {k: v.tolist() for k, v in cols.items()})
    S._rec("weights", w)
    matrix = rng.random() < 0.3
    names = list(cols)
    if weighted:
        cols["w"] = w
        if rng.random() < 0.5:
            cols = {k: cols[k] for k in ["w"] + names}
    order = list(cols)
    frame = pd.DataFrame(cols)
    key = (lambda k: order.index(k)) if matrix else (lambda k: k)
    X = frame.to_numpy() if matrix else frame
    kinds = [flags.IS_CONTINUOUS, flags.IS_ORDERED, flags.IS_UNORDERED, flags.IS_CONTINUOUS | flags.HAS_MISSING, flags.IS_CONTINUOUS | flags.IS_LINEAR, flags.IS_CONTINUOUS | flags.INCREASING]
    props = None if rng.random() < 0.2 else {key(k): kinds[rng.integers(0, len(kinds))] for k in names if rng.random() < 0.9}
    nb = int(rng.choice([2, 3, 5, 10, 100]))
    nbs = nb if rng.random() < 0.6 else {key(k): int(rng.choice([2, 4, 7, 50])) for k in names}
    eps = float(rng.choice([1e-9, 1e-6]))
    tol = float(rng.choice([0.0, 0.1, 0.5]))
    S._rec("settings", dict(props=str(props), n_bins=str(nbs), epsilon=eps, tolerance=tol, matrix=bool(matrix)))

    def fit(X):
        t = m.ECdfTransformer(n_bins=nbs, feature_properties=props, weight_column=key("w") if weighted else None, epsilon=eps, tolerance=tol)
        exc, r = S.call(t.fit, X)
        S.ensure("no error", exc is None and r is t)
        return t

    t = fit(X)
    got = _bins(t)
    want = [key(k) for k in order if k != "w" and (props is None or key(k) in props)]
    S.ensure("one entry per feature column, in the order of the columns", [c for c, _, _ in t.bins_and_cdfs_] == want)
    for k in names:
        if key(k) not in want or key(k) not in got:
            continue
        e, b = got[key(k)]
        vals, sh = _oracle(frame[k].to_numpy(), w)
        prop = flags.IS_CONTINUOUS if props is None else props[key(k)]
        if len(vals) == 0:
            S.ensure("no bins without usable values", b is None)
            continue
        bb, cdf = b[:, 0], b[:, 1]
        S.ensure("boundaries never decrease", bool(np.all(np.diff(bb) >= 0)))
        S.ensure("shares never decrease and start at zero", bool(np.all(np.diff(cdf) >= 0)) and cdf[0] == 0)
        S.ensure("first boundary is the smallest value", bb[0] == vals[0])
        S.ensure("every boundary is a value", bool(np.all(np.isin(bb, vals))))
        S.ensure("share of the values not above", np.allclose(cdf[1:], [sh[np.searchsorted(vals, v)] for v in bb[1:]], rtol=1e-9, atol=1e-12))
        d = np.diff(bb)
        S.ensure("comparison threshold", np.isclose(e, eps * (d[d > 0].min() if np.any(d > 0) else 1.0)))
        if flags.is_ordered_set(prop) or flags.is_unordered_set(prop):
            S.ensure("one bin per distinct value", np.array_equal(bb[1:], vals))
        else:
            lim = nbs[key(k)] if isinstance(nbs, dict) else nbs
            S.ensure("at most one boundary more than bins requested", len(bb) <= lim + 1)
            if len(vals) < 2 or sh[-2] < 1 - (lim + 1) * eps:
                S.ensure("last boundary is the largest value", bb[-1] == vals[-1])
                S.ensure("every bin has its share of the weight", bool(np.all(np.diff(cdf) >= (1 - tol) / lim - 2 * eps - 1e-9)))
            S.ensure("shares end at one", abs(cdf[-1] - 1) <= (lim + 1) * eps)
    # rows without a usable value or without weight do not matter
    add = int(rng.integers(1, 6))
    extra = {k: np.full(add, np.nan) for k in names}
    if weighted:
        if rng.random() < 0.5:
            extra = {k: rng.choice([-1e3, 1e3, 0.123, 1.0], size=add) for k in names}
            extra["w"] = np.zeros(add)
        else:
            extra["w"] = rng.random(add)
    f2 = pd.concat([frame, pd.DataFrame(extra)[order]], ignore_index=True)
    f2 = f2.iloc[rng.permutation(len(f2))].reset_index(drop=True)
    g2 = _bins(fit(f2.to_numpy() if matrix else f2))
    for c in want:
        if c not in got or c not in g2:
            continue
        a, b = got[c][1], g2[c][1]
        S.ensure("rows without value or weight do not change the bins", (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)))
    exc, _ = S.call(m.ECdfTransformer(n_bins=nb).fit, X[:0])
    S.ensure("an empty table is rejected", exc is not None and type(exc).__name__ == "ValueError")
