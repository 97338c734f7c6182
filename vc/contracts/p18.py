"""Targets are validated before learning, predictions stay in range."""
import numpy as np
import pandas as pd

from ..spec import bounded, contract
from . import util

CHECKS = {
    "poisson": ("regression.CBBaseRegressor._check_y", "nonneg"),
    "nbinom": ("regression.CBBaseRegressor._check_y", "nonneg"),
    "classifier": ("classification.CBClassifier._check_y", "binary"),
    "location": ("location.CBLocationRegressor._check_y", "finite"),
    "locpoisson": ("location.CBLocPoissonRegressor._check_y", "finite"),
    "nbinomc": ("nbinom.CBNBinomC._check_y", "nonneg"),
    "gbs": ("GBSregression.CBGBSRegressor._check_y", "finite"),
    "mquantile": ("generic_loss.check_y_multiplicative", "nonneg"),
    "aquantile": ("generic_loss.check_y_additive", "finite"),
    "exponential": ("regression.CBBaseRegressor._check_y", "nonneg"),
    "gmult": ("generic_loss.CBMultiplicativeGenericCRegressor._check_y", "nonneg"),
    "gadd": ("generic_loss.CBAdditiveGenericCRegressor._check_y", "finite"),
    "gclass": ("generic_loss.CBGenericClassifier._check_y", "binary"),
}


def _make(S, mode, **kw):
    g = S.mod("generic_loss")
    p = {"a": S.mod("flags").IS_UNORDERED}
    cls = dict(gmult=g.CBMultiplicativeGenericCRegressor, gadd=g.CBAdditiveGenericCRegressor, gclass=g.CBGenericClassifier).get(mode)
    if cls is not None:
        return cls(feature_groups=["a"], feature_properties=p, costs=lambda prediction, y, weights: float(np.mean((prediction - y) ** 2)), **kw)
    return util.make(S, mode, ["a"], p, **kw)


def _valid(S, rule, v):
    """(must be accepted, must be rejected) for one target value"""
    if rule == "binary":
        ok = S.or_(S.eq(v, 0.0, 0, 0), S.eq(v, 1.0, 0, 0))
        return ok, S.not_(ok)
    if rule == "finite":
        return S.isfinite(v), S.not_(S.isfinite(v))
    return S.and_(S.isfinite(v), S.ge(v, 0, 0, 0)), S.or_(S.isnan(v), S.lt(v, 0))


def _check(mode):
    fn, rule = CHECKS[mode]

    def f(S):
        e = _make(S, mode)
        n = S.dim("n", 1)
        y = S.array("y", n, kind="any")
        if not S.sym and "y" not in S.given:
            r = S.rng.random()
            if r < 0.7:
                y = S.rng.integers(0, 2 if rule == "binary" else 5, n).astype(float)
                if r < 0.35:
                    y[int(S.rng.integers(0, n))] = float(S.rng.choice([np.nan, np.inf, -np.inf, -1.0, -1e-12, 0.5, 2.0, 1 + 1e-12]))
            y = S._rec("y", y)
        y0 = S.copy(y)
        exc, _ = S.call(e._check_y, y)
        ok = S.forall(n, lambda i: _valid(S, rule, S.at(y0, i))[0])
        bad = S.exists(n, lambda i: _valid(S, rule, S.at(y0, i))[1])
        if exc is None:
            S.ensure("an accepted target has no invalid value", S.not_(bad))
        else:
            S.ensure("rejected with a value error", isinstance(exc, ValueError))
            S.ensure("a rejected target has an invalid value", S.not_(ok))
        S.ensure_forall("target unchanged", n, lambda i: S.or_(S.and_(S.isnan(S.at(y, i)), S.isnan(S.at(y0, i))), S.eq(S.at(y, i), S.at(y0, i), 0, 0)))

    f.__name__ = "target_" + mode
    return contract("P18", [fn])(f)


for _m in CHECKS:
    _check(_m)


@contract("P18", ["base.CyclicBoostingBase._check_len_data"])
def empty(S):
    e = _make(S, "poisson")
    n, m = S.dim("n", 0), S.dim("m", 0)
    X, y = S.array("X", (n, 1)), S.array("y", m)
    exc, _ = S.call(e._check_len_data, X, y)
    S.ensure("empty data is rejected", S.iff(S.or_(S.eq(n, 0, 0, 0), S.eq(m, 0, 0, 0)), exc is not None))
    S.ensure("with a value error", exc is None or isinstance(exc, ValueError))


RANGES = {}


def _range(mode, what, fns):
    def f(S):
        n = S.dim("n", 1)
        lim = None if S.sym else (700.0 if mode in ("poisson", "nbinom") else 40.0)
        link = S.array("link", n, None if S.sym else -lim, lim)
        e = _make(S, mode)
        S.stub(e, "predict_extended", lambda X, *a, **k: util.pred(S, link))
        r = e.predict(None)
        S.ensure("one prediction per sample", S.eq(S.len(r), n, 0, 0))
        S.ensure_forall(what[0], n, lambda i: what[1](S, S.at(r, i), S.at(link, i)))

    f.__name__ = "range_" + mode
    RANGES.setdefault(mode, []).append(f)
    return contract("P18", fns)(f)


_pos = ("predictions are positive", lambda S, v, l: S.and_(S.gt(v, 0), S.isfinite(v)))
_unit = ("predictions lie between 0 and 1", lambda S, v, l: S.and_(S.ge(v, 0, 0, 0), S.le(v, 1, 0, 0)))
_nn = ("predictions are never negative, positive ones are kept", lambda S, v, l: S.and_(S.ge(v, 0, 0, 0), S.eq(v, S.ite(S.gt(l, 0), l, 0.0), 1e-12, 0)))
_id = ("predictions are the sums themselves", lambda S, v, l: S.eq(v, l, 0, 0))
for _m, _w, _f in (
    ("poisson", _pos, ["base.CyclicBoostingBase.predict", "link.LogLinkMixin.unlink_func"]),
    ("nbinom", _pos, ["base.CyclicBoostingBase.predict"]),
    ("mquantile", _pos, ["base.CyclicBoostingBase.predict"]),
    ("exponential", _pos, ["price.CBExponential.predict"]),
    ("nbinomc", _unit, ["base.CyclicBoostingBase.predict", "link.Logit2LinkMixin.unlink_func"]),
    ("gclass", _unit, ["base.CyclicBoostingBase.predict", "link.LogitLinkMixin.unlink_func"]),
    ("classifier", _unit, ["classification.CBClassifier.predict"]),
    ("locpoisson", _nn, ["location.CBLocPoissonRegressor.predict"]),
    ("location", _id, ["base.CyclicBoostingBase.predict", "link.IdentityLinkMixin.unlink_func"]),
):
    _range(_m, _w, _f)


@bounded("P18", ["base.CyclicBoostingBase.fit", "base.CyclicBoostingBase._init_fit", "price.CBExponential.fit"], trials=400)
def nothing_learned(S):
    """bounded: fit rejects invalid targets and empty data before it learns anything, and accepts the rest"""
    mode = S.choice("mode", list(CHECKS))
    rule = CHECKS[mode][1]
    rng = S.rng
    base = mode if mode in util.ALLMODES else {"gmult": "mquantile", "gadd": "aquantile", "gclass": "classifier"}[mode]
    c = util.Case(S, base, n=int(rng.integers(6, 20)), weights=False, prior=False)
    e = _make(S, mode, maximal_iterations=2)
    y = c.y.copy()
    if mode == "gclass":
        y = (y > 0).astype(float)
    kind = int(rng.integers(0, 3))
    X = c.X
    if kind == 1:
        bad = {"binary": [np.nan, 0.5, 2.0, -1.0, np.inf], "finite": [np.nan, np.inf, -np.inf], "nonneg": [np.nan, -1.0, -1e-9, -np.inf]}[rule]
        y[int(rng.integers(0, len(y)))] = rng.choice(bad)
    if kind == 2:
        k = int(rng.integers(0, 3))
        if k != 1:
            X = X.iloc[:0]
        if k != 0:
            y = y[:0]
    before = set(vars(e))
    try:
        util.quiet(e.fit, X, y)
        exc = None
    except Exception as x:
        exc = x
    if kind:
        S.ensure("fit raises a value error", isinstance(exc, ValueError))
        learned = {k: v for k, v in vars(e).items() if k.endswith("_") and k not in before and v is not None}
        S.ensure("nothing is learned", not learned)
        S.ensure("prediction is refused", _raises(lambda: e.predict(c.X)))
    else:
        S.ensure("valid targets are accepted", exc is None or util.diverged(S, exc))
        if exc is None:
            p = util.quiet(e.predict, c.X)
            S.ensure("finite predictions", bool(np.isfinite(p).all()))
            if rule == "binary" or mode == "nbinomc":
                S.ensure("between 0 and 1", bool(((p >= 0) & (p <= 1)).all()))
            elif rule == "nonneg":
                S.ensure("positive", bool((p > 0).all()))
            elif mode == "locpoisson":
                S.ensure("never negative", bool((p >= 0).all()))


def _raises(f):
    try:
        f()
    except Exception:
        return True
    return False
