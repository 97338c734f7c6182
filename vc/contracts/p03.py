"""Multiplicative factors change and grow only within fixed limits."""
import numpy as np

from ..spec import bounded, contract
from . import util

B = "base.CyclicBoostingBase."
LIMITS = {(1, None): (0.01, 1000.0), (2, None): (0.1, 100.0), (1, "external"): (0.05, 20.0), (2, "external"): (0.1, 5.0)}


def _feature(S, b):
    dim = S.choice("dim", [1, 2, 3])
    ext = S.choice("type", [None, "external"])
    ft = S.mod("features").FeatureTypes.external if ext else None
    f = util.feature(S, tuple("abc"[:dim]), ftype=ft)
    return f, LIMITS[min(dim, 2), ext]


@contract("P03", [B + "_set_factors_per_feature"], trials=20)
def limits(S):
    mode = S.choice("mode", ["poisson", "nbinom", "exponential", "mquantile"])
    e = util.make(S, mode, ["a"], None)
    f, (lo, hi) = _feature(S, 1)
    r = e._set_factors_per_feature(feature=f)
    S.ensure("limits of the kind of feature", float(r[0]) == lo and float(r[1]) == hi)


def _step(S, fitted):
    mode = S.choice("mode", ["poisson", "exponential"])
    e = util.make(S, mode, ["a"], None)
    e.is_diverging, e.diverging = False, S.choice("diverging", [0, 1, 4])
    b = S.dim("b", 1)
    f, (lo, hi) = _feature(S, b)
    llo, lhi = S.log(lo), S.log(hi)
    new = S.array("new", b, scale=3)
    f.factors_link = new
    f.is_fitted = fitted
    old = None
    if fitted:
        old = S.array("old", b)
        if not S.sym and "old" not in S.given:
            o = np.asarray(llo + (lhi - llo) * S.rng.random(b))
            o[S.rng.random(b) < 0.2] = lhi
            o[S.rng.random(b) < 0.2] = llo
            old = S._rec("old", o)
        S.assume_forall(b, lambda j: S.and_(S.ge(S.at(old, j), llo, 0, 1e-9), S.le(S.at(old, j), lhi, 0, 1e-9)))
        f.fitted_aggregated = S.copy(old)
    new0 = S.copy(new)
    e.visit_factors(f, S.copy(new), None, None, None)
    agg = f.fitted_aggregated
    S.ensure("one factor per bin", S.eq(S.len(agg), b, 0, 0))
    if S.sym:
        # 0.01 < 0.05 < 0.1 < 0.5 and 2 < 5 < 20 ... in link space
        S.ensure("lemma: one doubling is inside the limits", S.and_(llo <= S.log(0.5), S.log(2.0) <= lhi))

    def change(j):
        return S.at(agg, j) - (S.at(old, j) if fitted else 0.0)

    S.ensure_forall("accumulated factor inside the limits", b, lambda j: S.and_(S.ge(S.at(agg, j), llo, 0, 1e-9), S.le(S.at(agg, j), lhi, 0, 1e-9)))
    S.ensure_forall("changed at most by a factor of two", b, lambda j: S.and_(S.ge(change(j), S.log(0.5), 0, 1e-9), S.le(change(j), S.log(2.0), 0, 1e-9)))
    S.ensure_forall(
        "an update inside both limits is applied unchanged",
        b,
        lambda j: S.implies(
            S.and_(
                S.ge(S.at(new0, j), S.log(0.5)),
                S.le(S.at(new0, j), S.log(2.0)),
                S.ge(S.at(new0, j) + (S.at(old, j) if fitted else 0.0), llo),
                S.le(S.at(new0, j) + (S.at(old, j) if fitted else 0.0), lhi),
            ),
            lambda: S.eq(change(j), S.at(new0, j), 1e-9, 1e-9),
        ),
    )
    S.ensure("the feature counts as fitted", f.is_fitted is True)


@contract("P03", [B + "visit_factors", B + "_set_factors_per_feature"], trials=300)
def first_update(S):
    _step(S, False)


@contract("P03", [B + "visit_factors", B + "_set_factors_per_feature"], trials=300)
def later_update(S):
    """invariant: from any accumulated factors inside the limits"""
    _step(S, True)


class _Watch:
    """records the accumulated factors after every feature update"""

    def __init__(self, est):
        self.est, self.rows = est, []

    def observe_iterations(self, *a):
        pass

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, state):
        f = state["features"].features[feature_i] if hasattr(state["features"], "features") else None
        if f is None:
            return
        self.rows.append((iteration, feature_i, f.feature_group, f.feature_type, np.array(f.fitted_aggregated)))


@bounded("P03", [B + "_fit_main", B + "feature_iteration", B + "visit_factors"], trials=80)
def trainings(S):
    """bounded: whole trainings on data with extreme effects"""
    mode = S.choice("mode", ["poisson", "nbinom", "exponential", "mquantile"])
    c = util.Case(S, mode, n=int(S.rng.integers(20, 120)), prior=False)
    if S.rng.random() < 0.6:
        k = np.nan_to_num(c.X["a"].values).astype(int) % 3
        c.y = S.rng.poisson(c.mu * np.array([0.001, 1.0, 300.0])[k]).astype(float)
    e = util.make(S, mode, c.groups, c.props, **c.kw(S, maximal_iterations=int(S.rng.integers(3, 12))))
    w = _Watch(e)
    e.observers = [w]
    try:
        util.quiet(e.fit, c.X.copy(), c.y.copy())
    except Exception as x:
        S.ensure("only divergence stops a fit", util.diverged(S, x))
    if getattr(e, "diverging", 0):
        S.cover("diverged")
        return
    last = {}
    for it, i, group, ft, agg in w.rows:
        lo, hi = LIMITS[min(len(group), 2), None if ft is None else "external"]
        S.ensure("accumulated factors inside the limits", bool(np.all(agg >= np.log(lo) - 1e-9) and np.all(agg <= np.log(hi) + 1e-9)))
        d = agg - last.get(i, 0.0)
        S.ensure("changed at most by a factor of two", bool(np.all(np.abs(d) <= np.log(2) + 1e-9)))
        last[i] = agg
    S.ensure("every update was seen", len(w.rows) >= len(list(e.features)))
